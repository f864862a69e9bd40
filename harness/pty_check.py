#!/usr/bin/env python3
"""Drives the real program through a terminal, one key at a time, and compares what it shows with what
the keys say they do. `pty_check.py search BINARY SEED SECONDS MAX FIRST STEP` or `replay BINARY SEED INDEX`."""
import fcntl, json, os, random, select, signal, struct, sys, termios, time

BINARY = None
PATIENCE = 2.0


class Screen:
    """As much of a terminal as the program uses."""

    def __init__(self, rows, cols):
        self.rows, self.cols = rows, cols
        self.cells = [[' '] * 400 for _ in range(rows)]
        self.r = self.c = 0
        self.pending = b''
        self.replies = b''

    def put(self, ch):
        row = self.cells[self.r]
        if self.c >= len(row):
            row.extend([' '] * (self.c - len(row) + 100))
        row[self.c] = ch
        self.c += 1

    def down(self):
        if self.r + 1 < self.rows:
            self.r += 1
        else:
            self.cells.pop(0)
            self.cells.append([' '] * 400)

    def feed(self, data):
        data = self.pending + data
        self.pending = b''
        i = 0
        while i < len(data):
            b = data[i]
            if b == 0x1b:
                j = i + 1
                if j >= len(data):
                    break
                if data[j] != ord('['):
                    i = j + 1
                    continue
                j += 1
                while j < len(data) and not (0x40 <= data[j] <= 0x7e):
                    j += 1
                if j >= len(data):
                    break
                self.csi(data[i + 2:j].decode(), chr(data[j]))
                i = j + 1
                continue
            if b == 13:
                self.c = 0
            elif b == 10:
                self.down()
            elif b >= 0x20:
                self.put(chr(b))
            i += 1
        self.pending = data[i:]

    def csi(self, params, final):
        if params.startswith('?'):
            if params == '?1049' and final == 'h':
                self.cells = [[' '] * 400 for _ in range(self.rows)]
                self.r = self.c = 0
            return
        nums = [int(p) if p else 0 for p in params.split(';')] if params else []
        n = nums[0] if nums else 0
        if final == 'n' and n == 6:
            self.replies += b'\x1b[%d;%dR' % (self.r + 1, self.c + 1)
        elif final == 'G':
            self.c = max(n, 1) - 1
        elif final == 'H':
            self.r = min(max(n, 1) - 1, self.rows - 1)
            self.c = max(nums[1] if len(nums) > 1 else 1, 1) - 1
        elif final == 'E':
            self.r = min(self.r + max(n, 1), self.rows - 1)
            self.c = 0
        elif final == 'K':
            self.cells[self.r] = [' '] * 400
        elif final == 'J':
            for r in range(self.r + 1, self.rows):
                self.cells[r] = [' '] * 400
            del self.cells[self.r][self.c:]
            self.cells[self.r].extend([' '] * 100)

    def row(self, r):
        return ''.join(self.cells[r])


class Dead(Exception):
    pass


class Program:
    def __init__(self, args, rows, cols):
        self.screen = Screen(rows, cols)
        self.before = 0
        self.fd, self.slave = os.openpty()
        fcntl.ioctl(self.fd, termios.TIOCSWINSZ, struct.pack('HHHH', rows, cols, 0, 0))
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.setsid()
                fcntl.ioctl(self.slave, termios.TIOCSCTTY, 0)
                for n in (0, 1, 2):
                    os.dup2(self.slave, n)
                os.closerange(3, 64)
                os.environ['TERM'] = 'xterm'
                os.execv(BINARY, [BINARY, '--no-db'] + args)
            finally:
                os._exit(127)

    def state(self):
        with open('/proc/%d/stat' % self.pid) as f:
            return f.read().rsplit(')', 1)[1].split()[0]

    def pump(self):
        """Takes in whatever has been written. Was there anything?"""
        some = False
        while select.select([self.fd], [], [], 0)[0]:
            try:
                data = os.read(self.fd, 65536)
            except OSError:
                raise Dead()
            if not data:
                raise Dead()
            some = True
            self.screen.feed(data)
            if self.screen.replies:
                os.write(self.fd, self.screen.replies)
                self.screen.replies = b''
        return some

    def resting(self):
        """Does the program seem to wait for more input, with everything it has written taken in?"""
        try:
            state = self.state()
        except OSError:
            raise Dead()
        if state in 'ZX':
            self.pump()
            raise Dead()
        waiting = struct.unpack('i', fcntl.ioctl(self.slave, termios.TIOCINQ, b'\0\0\0\0'))[0]
        return state == 'S' and waiting == 0 and self.switches() > self.before

    def switches(self):
        """How often has it gone to sleep?"""
        try:
            with open('/proc/%d/status' % self.pid) as f:
                for line in f:
                    if line.startswith('voluntary_ctxt_switches:'):
                        return int(line.split()[1])
        except OSError:
            pass
        raise Dead()

    def wait_for(self, wrong):
        """Waits until the program rests and nothing is wrong. Bytes pass through a terminal with some delay,
        so that only what stays wrong for long, without anything happening, is taken to be wrong."""
        begun = rested = time.time()
        what = None
        while True:
            if self.pump() or not self.resting():
                rested = time.time()
            else:
                what = wrong()
                if what is None:
                    if not self.pump() and self.resting():
                        return None
                elif time.time() - rested > PATIENCE:
                    return what
            if time.time() - begun > 60:
                raise TimeoutError()
            time.sleep(0.0001)

    def send(self, data):
        self.before = self.switches()
        os.write(self.fd, data)

    def resize(self, cols):
        self.before = self.switches()
        self.screen.cols = cols
        fcntl.ioctl(self.fd, termios.TIOCSWINSZ, struct.pack('HHHH', self.screen.rows, cols, 0, 0))

    def close(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        os.close(self.fd)
        os.close(self.slave)


class Model:
    def __init__(self):
        self.text, self.cursor = '', 0
        self.lines = []
        self.at = 0
        self.edits = {}

    def shown(self, at):
        if at in self.edits:
            return self.edits[at]
        return '' if at == 0 else self.lines[len(self.lines) - at]

    def edit(self, text):
        self.edits[self.at] = text
        self.text = text

    def match(self):
        t = self.text
        if len(t) < 2:
            return
        p = min(self.cursor, len(t) - 1)
        if t[p] not in '()':
            return
        step = 1 if t[p] == '(' else -1
        depth, i = 0, p
        while 0 <= i < len(t):
            if t[i] == t[p]:
                depth += 1
            elif t[i] in '()':
                depth -= 1
            if depth == 0:
                self.cursor = i
                return
            i += step

    def go(self, at):
        self.at = at
        self.text = self.shown(at)
        self.cursor = len(self.text)

    def enter(self):
        self.lines.append(self.text)
        self.edits = {}
        self.go(0)


ARROWS = {'left': b'D', 'right': b'C'}
IGNORED = {
    'tab': b'\t', 'f1': b'\x1bOP', 'page up': b'\x1b[5~', 'alt x': b'\x1bx', 'ctrl a': b'\x01', 'ctrl e': b'\x05',
    'alt left': b'\x1b[1;3D', 'insert': b'\x1b[2~', 'ctrl b': b'\x02', 'alt right': b'\x1b[1;3C',
    'ctrl+shift left': b'\x1b[1;6D', 'an accent': '\u00e9'.encode(), 'a sign': '\u221a'.encode(), 'alt (': b'\x1b(',
}


def event(rng, m, flavour):
    """Picks a key, applies it to the model, and returns its name and its bytes."""
    kind = rng.choices(
        ['char', 'backspace', 'delete', 'move', 'jump', 'match', 'up', 'down', 'enter', 'ignored', 'resize'],
        [30 if flavour == 'long' else 14, 4, 4, 12, 4, 6, 5, 3, 1 if flavour == 'long' else 3, 3, 3])[0]
    if kind == 'char':
        c = rng.choice('(())()123abcXY+-* /$_.=,%~ ')
        m.edit(m.text[:m.cursor] + c + m.text[m.cursor:])
        m.cursor += 1
        return 'type %r' % c, c.encode()
    if kind == 'backspace':
        if m.cursor > 0:
            m.edit(m.text[:m.cursor - 1] + m.text[m.cursor:])
            m.cursor -= 1
        return 'backspace', b'\x7f'
    if kind == 'delete':
        if m.cursor < len(m.text):
            m.edit(m.text[:m.cursor] + m.text[m.cursor + 1:])
        return 'delete', b'\x1b[3~'
    if kind == 'move':
        way = rng.choice(['left', 'left', 'right'])
        mod, size = rng.choice([('', 1), ('', 1), ('ctrl ', 15), ('shift ', 15)])
        data = b'\x1b[' + {'': b'', 'ctrl ': b'1;5', 'shift ': b'1;2'}[mod] + ARROWS[way]
        if way == 'left':
            m.cursor = max(0, m.cursor - size)
        else:
            m.cursor = min(len(m.text), m.cursor + size)
        return mod + way, data
    if kind == 'jump':
        if rng.random() < 0.5:
            m.cursor = 0
            return 'home', b'\x1b[H'
        m.cursor = len(m.text)
        return 'end', b'\x1b[F'
    if kind == 'match':
        m.match()
        return 'match', b'\x0e'
    if kind == 'up':
        if m.at < len(m.lines):
            m.go(m.at + 1)
        return 'up', b'\x1b[A'
    if kind == 'down':
        if m.at > 0:
            m.go(m.at - 1)
        return 'down', b'\x1b[B'
    if kind == 'enter':
        m.enter()
        return 'enter', b'\r'
    if kind == 'ignored':
        name = rng.choice(sorted(IGNORED))
        return name, IGNORED[name]
    return 'resize', None


def compare(p, m, alternate):
    """What is wrong with the screen, if anything."""
    s = p.screen
    if alternate:
        width = s.cols - 2
        # Where the cursor is tells where the line starts.
        top = s.r - m.cursor // width
        if s.c != 2 + m.cursor % width:
            return 'the cursor is in column %d, not in %d' % (s.c, 2 + m.cursor % width)
        if top < 0:
            return 'the cursor is in row %d, too high up' % s.r
        pieces = [m.text[i:i + width] for i in range(0, len(m.text), width)] or ['']
        for i, piece in enumerate(pieces):
            if top + i >= s.rows:
                return None
            want = ('# ' if i == 0 else '  ') + piece
            got = s.row(top + i).rstrip()
            if got != want.rstrip():
                return 'row %d shows %r instead of %r' % (i, got, want)
        return None
    width = s.cols - 4
    offset = m.cursor - (s.c - 2)
    if s.c < 2 or offset < 0 or offset > len(m.text) or s.c > s.cols - 1:
        return 'the cursor is in column %d, where position %d of %r cannot be' % (s.c, m.cursor, m.text)
    more = len(m.text) > offset + width
    want = ('# ' if offset == 0 else '< ') + m.text[offset:offset + width] + (' >' if more else '')
    got = s.row(s.r).rstrip()
    if got != want.rstrip():
        return 'the line shows %r instead of %r' % (got, want)
    return None


def case(seed, index):
    rng = random.Random('%d/%d' % (seed, index))
    alternate = rng.random() < 0.3
    flavour = rng.choice(['long', 'short'])
    cols = rng.choice([300, 300, 80, 40, 20, 10, 6])
    rows = 300 if alternate else 30
    story = ['%s, %d columns' % ('alternate screen' if alternate else 'inline', cols)]
    m = Model()
    p = Program(['-a'] if alternate else [], rows, cols)
    events = 0
    try:
        p.wait_for(lambda: compare(p, m, alternate))
        for _ in range(rng.randrange(10, 120 if flavour == 'long' else 60)):
            if alternate and p.screen.r > 200:
                break
            name, data = event(rng, m, flavour)
            if name == 'resize':
                cols = rng.choice([300, 120, 60, 30, 15, 8, 6])
                story.append('resize to %d' % cols)
                if cols != p.screen.cols:
                    p.resize(cols)
            else:
                story.append(name)
                p.send(data)
            events += 1
            what = p.wait_for(lambda: compare(p, m, alternate))
            if what:
                return story, what
        # Leave, which is a key as well.
        p.send(b'\x04')
        try:
            p.wait_for(lambda: 'it does not exit')
            return story + ['ctrl d'], 'it does not exit'
        except Dead:
            pass
        return story, None
    except Dead:
        return story, 'the program is gone: %r' % ''.join(p.screen.row(p.screen.r)).rstrip()
    except TimeoutError:
        return story, 'it does not come to rest'
    finally:
        p.close()


def main():
    global BINARY
    mode, BINARY = sys.argv[1], sys.argv[2]
    seed = int(sys.argv[3])
    if mode == 'replay':
        story, what = case(seed, int(sys.argv[4]))
        print('case: ' + '; '.join(story))
        print(json.dumps({'evaluations': 1, 'violation': None if what is None else {
            'index': int(sys.argv[4]), 'case': '; '.join(story), 'what': what}}))
        return
    seconds, most, first, step = [int(a) for a in sys.argv[4:8]]
    begun = time.time()
    seen, samples, n, found = set(), [], 0, None
    index = first
    while index < most and time.time() - begun < seconds:
        story, what = case(seed, index)
        n += 1
        text = '; '.join(story)
        seen.add(text)
        if len(samples) < 4:
            samples.append(text)
        if what:
            # Only what happens again is reported.
            again = case(seed, index)[1]
            if again:
                found = {'index': index, 'case': text, 'what': what}
                break
        index += step
    out = {'evaluations': n, 'distinct_nontrivial': len(seen), 'samples': samples}
    if found:
        out['violation'] = found
    print(json.dumps(out))


main()
