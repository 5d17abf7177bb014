import logging
ogler = None
class Ogler:
    Prefix = "hio"
    def __init__(self, name='main', level=logging.CRITICAL, prefix="hio", syslogged=False, **kwa):
        self.name, self.level, self.prefix = name, level, prefix
        self.path = None
        self.headDirPath = None
        self.temp = True
        self.opened = False
        self.baseFormatter = logging.Formatter('%(prefix)s: %(message)s')
        self.baseConsoleHandler = logging.NullHandler()
        self.baseFileHandler = None
        self.dirPath = None
    def reopen(self, **kwa):
        self.opened = True
        return True
    def close(self, clear=False):
        self.opened = False
    def resetLevel(self, name=None, level=None, globally=False):
        if level is not None:
            self.level = level
    def getLogger(self, name=__name__, level=None):
        lg = logging.getLogger(name)
        lg.setLevel(self.level if level is None else level)
        lg.propagate = False
        if not lg.handlers:
            lg.addHandler(self.baseConsoleHandler)
        return lg
    def getLoggers(self):
        return (self.getLogger(), self.getLogger())
def initOgler(level=logging.CRITICAL, **kwa):
    global ogler
    if ogler is None or True:
        ogler = Ogler(level=level, **kwa)
    return ogler
openOgler = None
