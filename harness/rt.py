"""
Run-time support: monitors, verdicts, random streams and line coverage.
"""

import hashlib
import os
import random
import signal
import sys
import traceback


class Stop(Exception):
    """Raised to abandon a case after a violation has been recorded."""


class HarnessError(Exception):
    """The harness itself is wrong; never a verdict about the code."""


class CpuTimeout(BaseException):
    pass


def short(x, limit=300):
    if isinstance(x, (bytes, bytearray, memoryview)):
        x = bytes(x)
        if len(x) > 96:
            return f'<{len(x)} bytes {x[:48].hex()}..{x[-16:].hex()}>'
        return f'<{len(x)} bytes {x.hex()}>'
    try:
        r = repr(x)
    except Exception as e:  # the object under test may be broken
        r = f'<unprintable {type(x).__name__}: {type(e).__name__}>'
    return r if len(r) <= limit else r[:limit] + '...'


def firstDifference(a, b):
    n = min(len(a), len(b))
    for i in range(n):
        if a[i] != b[i]:
            return i
    return n if len(a) != len(b) else None


def caseRng(seed, prop, index):
    return random.Random(f'{seed}:{prop}:{index}')


class Ctx:
    """
    Handed to each case. Counts what every monitor observed and records
    violations.
    """
    def __init__(self, prop, seed, tier, scratch):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.scratch = scratch
        self.index = None
        self.monitors = {}     # monitor name -> number of evaluations
        self.notes = {}        # free-form counters about the workload
        self.keys = set()      # digests of distinct non-trivial cases
        self.samples = []
        self.violations = []
        self.knownHits = {}
        self.knownMechanisms = {}
        self.caseInfo = []

    # -- workload bookkeeping

    def begin(self, index):
        self.index = index
        self.caseInfo = []

    def info(self, label, value):
        """Remember something about the case, for the replay file."""
        if len(self.caseInfo) < 40:
            self.caseInfo.append((label, value))

    def note(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    def nontrivial(self, *parts):
        h = hashlib.blake2b(digest_size=8)
        for p in parts:
            if isinstance(p, (bytes, bytearray)):
                h.update(bytes(p))
            else:
                h.update(repr(p).encode('utf-8', 'backslashreplace'))
            h.update(b'\0|')
        self.keys.add(h.digest())

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(f'case {self.index}: {text}'[:600])

    # -- monitors

    def violate(self, monitor, message, mechanism=None):
        if mechanism is not None and mechanism in self.knownMechanisms:
            self.knownHits[mechanism] = self.knownHits.get(mechanism, 0) + 1
            return
        self.violations.append({
            'property': self.prop,
            'seed': self.seed,
            'tier': self.tier,
            'case': self.index,
            'monitor': monitor,
            'mechanism': mechanism,
            'message': message[:4000],
            'info': [(l, short(v, 2000)) for l, v in self.caseInfo],
        })
        raise Stop()

    def check(self, monitor, ok, message='', mechanism=None):
        self.monitors[monitor] = self.monitors.get(monitor, 0) + 1
        if not ok:
            if callable(message):
                message = message()
            self.violate(monitor, message, mechanism)
        return ok

    def eq(self, monitor, got, want, what='', mechanism=None):
        self.monitors[monitor] = self.monitors.get(monitor, 0) + 1
        try:
            same = bool(got == want)
        except Exception as e:
            same = False
            what += f' (comparison failed: {e!r})'
        if not same:
            extra = ''
            if isinstance(got, (bytes, bytearray)) and isinstance(want, (bytes, bytearray)):
                d = firstDifference(got, want)
                extra = (f'; lengths {len(got)} / {len(want)}, first difference at'
                         f' {d:#x}: {short(got[d:d+16])} / {short(want[d:d+16])}')
            elif isinstance(got, (list, tuple)) and isinstance(want, (list, tuple)):
                d = firstDifference(got, want)
                if d is not None:
                    extra = (f'; lengths {len(got)} / {len(want)}, first difference at'
                             f' index {d}: {short(got[d:d+1])} / {short(want[d:d+1])}')
            self.violate(monitor,
                f'{what}: got {short(got)}, expected {short(want)}{extra}', mechanism)
        return same

    def bytesEq(self, monitor, got, want, what='', mechanism=None):
        """Like eq(), for anything bytes-like (bytes/bytearray compare equal)."""
        if not isinstance(got, (bytes, bytearray, memoryview)):
            self.monitors[monitor] = self.monitors.get(monitor, 0) + 1
            self.violate(monitor, f'{what}: got {short(got)} instead of bytes', mechanism)
            return False
        return self.eq(monitor, bytes(got), bytes(want), what, mechanism)

    def raises(self, monitor, func, exceptions=Exception, what='', mechanism=None):
        """The call must be refused with an error."""
        self.monitors[monitor] = self.monitors.get(monitor, 0) + 1
        try:
            result = func()
        except (Stop, CpuTimeout):
            raise
        except exceptions:
            return True
        self.violate(monitor, f'{what}: expected an error, got {short(result)}', mechanism)
        return False


# ---------------------------------------------------------------------
# Line coverage of the package under test (which lines were reached while
# the monitors were watching)

class LineCoverage:
    TOOL = 3

    def __init__(self, root):
        self.root = os.path.join(root, '')
        self.lines = {}

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        mon.use_tool_id(self.TOOL, 'verif-lines')
        disable = mon.DISABLE
        root, lines = self.root, self.lines

        def onLine(code, line):
            fn = code.co_filename
            if fn.startswith(root):
                s = lines.get(fn)
                if s is None:
                    s = lines[fn] = set()
                s.add(line)
            return disable

        mon.register_callback(self.TOOL, mon.events.LINE, onLine)
        mon.set_events(self.TOOL, mon.events.LINE)

    def result(self):
        return {fn[len(self.root):]: sorted(s) for fn, s in self.lines.items()}


def executableLines(path):
    """All line numbers that carry code inside functions of a source file."""
    with open(path, encoding='utf-8') as f:
        top = compile(f.read(), path, 'exec')
    out = set()

    def walk(code, inFunction):
        if inFunction:
            for _, _, line in code.co_lines():
                if line is not None and line != code.co_firstlineno:
                    out.add(line)
        for c in code.co_consts:
            if hasattr(c, 'co_code'):
                isClass = not (c.co_flags & 0x0002)  # CO_NEWLOCALS
                walk(c, inFunction or not isClass)
    walk(top, False)
    return out


# ---------------------------------------------------------------------

def installWatchdog(seconds):
    def onTimer(signum, frame):
        raise CpuTimeout()
    signal.signal(signal.SIGVTALRM, onTimer)
    return lambda: signal.setitimer(signal.ITIMER_VIRTUAL, seconds), \
           lambda: signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def runCases(module, ctx, indices, cpuLimit):
    """Run a list of case indices; stop after the first few violations."""
    arm, disarm = installWatchdog(cpuLimit)
    done = 0
    for index in indices:
        ctx.begin(index)
        rng = caseRng(ctx.seed, ctx.prop, index)
        try:
            arm()
            module.case(ctx, rng, index)
            disarm()
        except Stop:
            disarm()
        except HarnessError:
            disarm()
            raise
        except CpuTimeout:
            disarm()
            try:
                ctx.violate('watchdog',
                    f'case still running after {cpuLimit} s of processor time')
            except Stop:
                pass
        except (Exception, RecursionError):
            disarm()
            try:
                ctx.violate('no unexpected exception', traceback.format_exc()[-3500:])
            except Stop:
                pass
        done += 1
        if len(ctx.violations) >= 3:
            break
    return done
