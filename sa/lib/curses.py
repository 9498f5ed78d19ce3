from __sa__ import emit, world

A_NORMAL, A_BOLD, A_REVERSE, A_UNDERLINE, A_DIM = 0, 1, 2, 4, 8
KEY_UP, KEY_DOWN, KEY_LEFT, KEY_RIGHT, KEY_RESIZE, KEY_ENTER = 259, 258, 260, 261, 410, 343
ERR, OK = -1, 0
COLOR_RED, COLOR_GREEN, COLOR_WHITE, COLOR_BLACK, COLOR_YELLOW, COLOR_BLUE, COLOR_CYAN = 1, 2, 7, 0, 3, 4, 6


class error(Exception):
    pass


class window:
    waits = True

    def nodelay(self, flag):
        self.waits = not flag

    def timeout(self, delay):
        self.waits = delay < 0

    def getch(self, *a):
        return world("getch", self.waits)

    def getkey(self, *a):
        k = world("getch", self.waits)
        if k < 0:
            raise error("no input")
        return chr(k)

    def getmaxyx(self):
        return world("screen")

    def _nothing(self, *a, **k):
        pass

    def addstr(self, *a):
        if len(a) > 2:
            emit("draw", self, a[0], a[1], a[2])
        elif a:
            emit("draw", self, None, None, a[0])

    def addnstr(self, *a):
        if len(a) > 3:
            emit("draw", self, a[0], a[1], a[2])
        else:
            emit("draw", self, None, None, a[0])

    insstr = addch = addstr

    def move(self, y, x):
        emit("move", self, y, x)

    def clear(self):
        emit("clear", self)

    def refresh(self):
        emit("refresh", self)

    erase = clear
    noutrefresh = refresh
    keypad = clrtoeol = clrtobot = _nothing
    border = box = attron = attroff = attrset = bkgd = scrollok = leaveok = resize = _nothing


def wrapper(func, *a, **k):
    return func(window(), *a, **k)


def initscr():
    return window()


def _nothing(*a, **k):
    pass


endwin = curs_set = noecho = echo = cbreak = nocbreak = start_color = use_default_colors = init_pair = beep = doupdate = napms = _nothing
resize_term = resizeterm = _nothing


def color_pair(n):
    return 0


def has_colors():
    return False
