"""recorder of the windows pyplot opens, both sides"""

class Windows:
    """the figures of pyplot: what was opened and shown, in order"""
    def __init__(self):
        self.log, self.numbered = [], {}

    def figure(self, num=None, *a, **k):
        if num is None:
            num = max(self.numbered, default=0) + 1
        if num not in self.numbered:
            self.numbered[num] = Window(num)
        return self.numbered[num]

    def show(self, *a, **k):
        self.log.append('show')


class Window:
    def __init__(self, num):
        self.number, self.title = num, None
        self.canvas = self.manager = self

    def set_window_title(self, s):
        self.title = s
