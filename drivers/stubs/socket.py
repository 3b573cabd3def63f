class error(Exception):
    pass


class timeout(error):
    pass
