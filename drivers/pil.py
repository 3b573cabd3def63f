"""The backend that makes images puts things where it is told."""
import Image
import ImageFont
import bglib.image.PIL

P = 'bglib.image.PIL.Draw.'


def measure(self, text):
    n = str(self.size)
    return (SYM('width at ' + n, 1), SYM('height at ' + n, 1))


ImageFont.Font.measure = measure


def fresh(size=(700, 500)):
    d = bglib.image.PIL.Draw(None)
    d.create_dc(size)
    return d, d.dc[0], d.dc[1]


def check_canvas():
    d, img, pen = fresh((700, 500))
    CHECK(img.size == (700, 500) and pen.picture is img, 'the canvas has the size asked for', P + 'create_dc', img.size)
    CHECK(d.result_from_dc() is img, 'the picture drawn is the result', P + 'result_from_dc')
    d.delele_dc()
    CHECK(d.dc is None, 'a canvas is used once', P + 'delele_dc')


KEYS = [('a.png', (10, 20), False), ('a.png', (10, 20), True), ('a.png', (20, 10), False), ('b.jpg', (10, 20), False), ('b.jpg', (20, 10), True), ('a.png', [10, 20], True)]


def check_images(first=(0, 1, 2, 3, 4, 5), then=(0, 1, 2, 3, 4, 5)):
    """Which images were used before does not matter."""
    d = bglib.image.PIL.Draw(None)
    for k in (KEYS[first], KEYS[then], KEYS[first]):
        i = d.load_image(k[0], k[1], k[2])
        CHECK(i.uri == k[0] and i.size == tuple(k[1]) and i.flips == k[2], 'an image is the one asked for, in size and direction', P + 'load_image', k, i.uri, i.size, i.flips)


def check_fonts(first=(0, 1, 2), then=(0, 1, 2)):
    keys = [('a.ttf', 10), ('a.ttf', 11), ('b.ttf', 10)]
    d = bglib.image.PIL.Draw(None)
    for k in (keys[first], keys[then], keys[first]):
        f = d.load_font(k[0], k[1])
        CHECK(f.uri == k[0] and f.size == k[1], 'a font is the one asked for, in its size', P + 'load_font', k, f.uri, f.size)


def box(d):
    x, y, w, h = SYM('x'), SYM('y'), SYM('w', 0), SYM('h', 0)
    return x, y, w, h


def check_paste(name=('a.png', 'b.jpg'), kind=(0, 1)):
    d, img, pen = fresh()
    x, y, w, h = box(d)
    i = d.load_image(name, (w, h), False)
    d.paste_image(i, [x, y] if kind else (x, y), [w, h] if kind else (w, h))
    CHECK(len(img.pasted) == 1 and img.pasted[0][0] is i, 'an image is pasted once', P + 'paste_image')
    CHECK(img.pasted[0][1] == (x, y, x + w, y + h), 'an image is pasted at its place', P + 'paste_image', img.pasted[0][1])
    CHECK(img.pasted[0][2] is (i if name == 'a.png' else None), 'transparent images are masked with themselves', P + 'paste_image', name)


def check_shapes(kind=(0, 1)):
    d, img, pen = fresh()
    x, y, w, h = box(d)
    at, size = ([x, y], [w, h]) if kind else ((x, y), (w, h))
    d.draw_ellipse(at, size, fill='red')
    CHECK(len(pen.log) == 1 and pen.log[0][0] == 'ellipse' and pen.log[0][1] == [x, y, x + w, y + h] and pen.log[0][2] == 'red', 'an ellipse fills its place', P + 'draw_ellipse', pen.log)
    pen.log = []
    d.draw_rect((x, y), (w, h), fill='red')
    CHECK(len(pen.log) == 1 and pen.log[0][0] == 'rectangle' and pen.log[0][1] == [(x, y), (x + w - 1, y + h - 1)] and pen.log[0][2] == 'red',
          'a rectangle fills its place', P + 'draw_rect', pen.log)
    pen.log = []
    d.draw_polygon([(x, y), (w, h), (y, x)], fill='red')
    CHECK(pen.log == [('polygon', [(x, y), (w, h), (y, x)], 'red')], 'a polygon has the corners given', P + 'draw_polygon', pen.log)


def check_text(high=(5, 8, 9, 11)):
    """Whatever the metrics of the font: a text is in its place, as large as possible, or not shown at all."""
    d, img, pen = fresh()
    x, y, w = SYM('x'), SYM('y'), SYM('w', 0)
    d.draw_text((x, y), (w, high), 'text', 'a.ttf', 'red')
    CHECK(len(pen.log) <= 1, 'a text is shown at most once', P + 'draw_text')
    sizes = [high] + [n for n in (10, 9, 8) if n < high]
    for t in pen.log:
        f = t[3]
        CHECK(t[0] == 'text' and t[2] == 'text' and t[4] == 'red' and f.uri == 'a.ttf', 'the text given is shown in its font and colour', P + 'draw_text', t)
        m = f.measure('text')
        CHECK(m[0] <= w and m[1] <= high, 'a text fits its place', P + 'calc_font_size', f.size)
        CHECK(t[1][0] >= x and t[1][1] >= y and t[1][0] + m[0] <= x + w and t[1][1] + m[1] <= y + high, 'a text is within its place', P + 'draw_text', t)
        left, right = t[1][0] - x, (x + w) - (t[1][0] + m[0])
        above, below = t[1][1] - y, (y + high) - (t[1][1] + m[1])
        CHECK(-1 <= left - right <= 1 and -1 <= above - below <= 1, 'a text is in the middle of its place', P + 'draw_text', left, right, above, below)
    largest = pen.log[0][3].size if pen.log else 0
    for n in sizes:
        if n > largest:
            m = (SYM('width at ' + str(n), 1), SYM('height at ' + str(n), 1))
            CHECK(not (m[0] < w and m[1] < high), 'a text is shown as large as it fits', P + 'calc_font_size', n, largest)
