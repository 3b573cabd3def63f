"""Contract: what is drawn, on which picture."""


class Draw(object):
    def __init__(self, picture):
        self.picture = picture
        self.log = []

    def text(self, at, text, font=None, fill=None):
        self.log.append(('text', at, text, font, fill))

    def ellipse(self, box, fill=None):
        self.log.append(('ellipse', list(box), fill))

    def polygon(self, points, fill=None):
        self.log.append(('polygon', list(points), fill))

    def rectangle(self, box, fill=None):
        self.log.append(('rectangle', list(box), fill))
