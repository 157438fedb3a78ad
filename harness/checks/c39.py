"""C39: the completion email reports the run and never harms it."""
import email
import io
import contextlib
import smtplib
import socket
import sys

import numpy as np
from hypothesis import strategies as st

import sim
import traj
import world as w
from common import Sub, fail

TECHNIQUE = ('whole runs with a recording stand-in for the mail server, which '
             'fails at generated points')
RULE = ('Short runs with the email switched on or off, a server that works or '
        'fails at any of its stages, and generated subjects and texts sent '
        'directly. Non-trivial: the email is switched on.')
STAGES = ['connect', 'ehlo', 'starttls', 'login', 'send']
ERRORS = {'refused': ConnectionRefusedError('no'), 'timeout': TimeoutError('no'),
          'name': socket.gaierror(-2, 'no'),
          'auth': smtplib.SMTPAuthenticationError(535, b'no'),
          'gone': smtplib.SMTPServerDisconnected('no')}


def server(log, stage=None, error=None):
    """A class that stands in for smtplib.SMTP and never opens a connection."""
    def step(name, *what):
        log.append((name,) + what)
        if name == stage:
            raise ERRORS[error]

    class Server:
        def __init__(self, *a, **k):
            step('connect')

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def ehlo(self, *a, **k):
            step('ehlo')
            return 250, b''
        helo = ehlo_or_helo_if_needed = ehlo

        def starttls(self, *a, **k):
            step('starttls')
            return 220, b''

        def login(self, *a, **k):
            step('login')
            return 235, b''

        def sendmail(self, sender, to, msg, *a, **k):
            if isinstance(msg, bytes):
                msg = msg.decode()
            step('send', sender, [to] if isinstance(to, str) else list(to), msg)
            return {}

        def send_message(self, msg, from_addr=None, to_addrs=None, *a, **k):
            to = to_addrs or [x.strip() for x in str(msg['To']).split(',')]
            return self.sendmail(from_addr or str(msg['From']), to,
                                 msg.as_string())

        def close(self):
            log.append(('close',))
        quit = close
    return Server


def stand_in(log, *how):
    """Put the stand-in wherever the server class is known; returns an undo."""
    new, old = server(log, *how), []
    for m in [smtplib, sys.modules.get('functions.email')]:
        for k in ('SMTP', 'SMTP_SSL'):
            if hasattr(m, k):
                old.append((m, k, getattr(m, k)))
                setattr(m, k, new)
    return lambda: [setattr(*x) for x in old]


@contextlib.contextmanager
def mail(log, *how):
    undo = stand_in(log, *how)
    try:
        yield
    finally:
        undo()


def letter(log):
    """The one message sent: (subject, text)."""
    sent = [x for x in log if x[0] == 'send']
    if len(sent) != 1:
        fail('%d messages were sent' % len(sent))
    _, sender, to, msg = sent[0]
    m = email.message_from_string(msg)
    if str(m['From'] or '').strip() != sender:
        fail('message is from %r, sent as %r' % (m['From'], sender))
    if [x.strip() for x in str(m['To'] or '').split(',')] != to:
        fail('message is to %r, sent to %r' % (m['To'], to))
    return m['Subject'], m.get_payload()


def squash(s):
    return ' '.join(str(s).split())


# ----------------------------------------------------------- sending directly
words = st.text(st.characters(min_codepoint=32, max_codepoint=126), min_size=1,
                max_size=30).map(str.strip).filter(bool)


@st.composite
def letters(draw):
    c = dict(subject=draw(words),
             body='\n'.join(draw(st.lists(words, min_size=1, max_size=4))))
    if draw(st.booleans()):
        c.update(stage=draw(st.sampled_from(STAGES)),
                 error=draw(st.sampled_from(sorted(ERRORS))))
    return c


def direct(c):
    log, out = [], io.StringIO()
    try:
        send = w.mod('functions.email').send_email
    except (ImportError, AttributeError):
        return                   # moved: the runs remain
    with mail(log, c.get('stage'), c.get('error')):
        with contextlib.redirect_stdout(out):
            send(c['subject'], c['body'])
    if 'stage' in c:
        hit = any(x[0] == c['stage'] for x in log)
        if hit and 'fail' not in out.getvalue().lower():
            fail('sending failed at %s but %r was printed'
                 % (c['stage'], out.getvalue()))
        return
    subject, text = letter(log)
    if squash(subject) != squash(c['subject']):
        fail('subject %r arrived as %r' % (c['subject'], subject))
    if squash(text) != squash(c['body']):
        fail('text %r arrived as %r' % (c['body'], text))
    if 'sent' not in out.getvalue().lower():
        fail('message sent but %r was printed' % out.getvalue())


# ------------------------------------------------------------------ whole runs
@st.composite
def cases(draw):
    c = draw(traj.runs(spheres=(0, 2), dumbbells=(0, 1), frames=(1, 3),
                       gap_hi=1.0))
    c['on'] = draw(st.sampled_from([True, True, True, False]))
    if draw(st.booleans()):
        c.update(stage=draw(st.sampled_from(STAGES)),
                 error=draw(st.sampled_from(sorted(ERRORS))))
    return c


def oracle(c):
    _, ref = traj.run(c, settings=dict(email_on_completion=False))
    log = []

    def prepare():
        stand_in(log, c.get('stage'), c.get('error'))
    r, got = traj.run(c, settings=dict(email_on_completion=c['on']),
                      prepare=prepare, after=lambda: log)
    log = r.after
    for k in ref:
        if k not in got or not np.array_equal(got[k], ref[k], equal_nan=True):
            fail('%s is changed by the email setting' % k)
    if not c['on']:
        if log:
            fail('an email was attempted though switched off')
        return
    if 'stage' in c:
        return
    subject, text = letter(log)
    host = socket.gethostname()
    if host not in subject or 'complete' not in subject:
        fail('subject is %r' % subject)
    name = r.name[:-4]
    if name not in squash(text):
        fail('the text does not name the run %s: %r' % (name, text))


SUBS = [Sub('letters', letters(), direct, 300, 3000, shards=1, init=w.init(),
            classify=lambda c: (True, ['fails at ' + c.get('stage', 'none')])),
        Sub('runs', cases(), oracle, 48, 480, shards=8, init=w.init(),
            classify=lambda c: (c['on'], ['on=%s' % c['on'], 'fails at '
                                          + c.get('stage', 'none')]))]
