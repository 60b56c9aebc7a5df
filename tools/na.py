NA = {}

