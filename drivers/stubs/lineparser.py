"""Contract of tonic.lineparser: each line goes to the handler named after the outermost group that matches it, if there is one."""
import re


class LineParser(object):
    def parse(self, line):
        if isinstance(line, str):
            m = re.match(self._first + '|' + self._last, line)
            kind, text = m.lastgroup, m.group(0)
        else:
            m, kind, text = line, line.kind, line
        h = getattr(self, 'handle_' + kind, None)
        if h is not None:
            h(text, m)
