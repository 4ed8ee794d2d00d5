NA={}
LEVEL={}
