def void(data):
    return (data, False)
