# property id -> reason
NA = {}
