def Variable(data, *args, **kwargs):
    return data
