"""A telnet connection that receives a script of texts: each is (index of the expected text or -1, text), or an exception."""
import socket


class Telnet(object):
    def __init__(self, host=None, port=0):
        self.script = []
        self.connected = False
        self.rawq = ''

    def set_debuglevel(self, n):
        pass

    def open(self, host, port=0, timeout=None):
        if host == 'down':
            raise socket.error()
        self.connected = True
        MARK('connected')

    def close(self):
        self.connected = False
        MARK('disconnected')

    def write(self, text):
        MARK('write', text)

    def expect(self, texts, timeout=None):
        MARK('wait')
        self.rawq += ''
        if texts[0] != '\r\n' or texts[1] != 'login: ' or len(texts) != 2:
            FAIL('lines are waited for', 'bglib.protocol.session.Session._listener', texts)
        if not self.script:
            raise EOFError()
        x = self.script[0]
        self.script = self.script[1:]
        if x == 'eof':
            raise EOFError()
        if x == 'reset':
            raise socket.error()
        if x == 'close':
            # the user closes the session while the listener waits
            self.close()
            raise EOFError()
        if x == 'close-late':
            # a line arrives just before the user closes the session
            self.close()
            return 0, None, 'late\r\n'
        if x[-1] == ' ':
            return 1, None, x
        if x[-1] == '\n':
            return 0, None, x
        return -1, None, x
