def getfilename(data, *args, **kwargs):
    return args[0]
