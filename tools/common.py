class Broken(Exception):
    pass
