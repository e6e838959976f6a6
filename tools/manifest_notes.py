# property -> (technique, level_note); NA: property -> reason
NOTES = {}
NA = {}
