# -*- coding: us-ascii -*-
"""E01: clients following a match over the network converge on the server's board."""
import errno
import boards
import sess
import simmods
from simmods import serr
from sess import CRLF

KEYS = ('position', 'rolled', 'on_action', 'on_inner_action', 'cube_in_logarithm', 'cube_owner', 'crawford', 'doubled',
        'score', 'match_length', 'game_state', 'resign_offer')
CHAT = ['You roll 5 and 3', 'bob rolls 3 and 4', 'bob moves 8-5 6-5 .', '12 carl hello', 'alice doubles. Type \'accept\' or '
        '\'reject\'.', '', '7 carl carl logs in.', 'bob can\'t move.', 'turn: bob.', '13 carl board: is nice']


class Match(object):
  """the server's state; seat 0 and 1 play"""
  def __init__(self, w):
    self.w = w
    self.ml = w.pick([1, 3, 5, 9], 'length')
    self.score = [w.choose(self.ml), w.choose(self.ml)]
    self.left = w.rand_int(4, 40, 'events')
    self.newgame()

  def newgame(self):
    w = self.w
    self.pos = boards.position(w)
    self.turn = w.choose(2, 'first')
    self.dice = (0, 0)
    self.cube = w.pick([0, 0, 0, 1], 'automatic doubles')
    self.owner = None
    self.doubled = False
    self.crawford = w.flip(0.2) and self.ml > 1
    self.over = False

  def win(self, seat, points):
    self.score[seat] += points
    self.over = True
    self.doubled = False
    self.dice = (0, 0)

  def command(self, seat, cmd):
    """whether anything happened"""
    w = self.w
    if self.over or self.left <= 0:
      return False
    answering = self.doubled and 1 - self.turn == seat
    playing = not self.doubled and self.turn == seat
    if cmd == 'roll' and playing and self.dice == (0, 0):
      self.dice = (w.rand_int(1, 6), w.rand_int(1, 6))
    elif cmd == 'double' and playing and self.dice == (0, 0) and not self.crawford and self.owner in (None, seat) and self.cube < 6:
      self.doubled = True
    elif cmd == 'accept' and answering:
      self.doubled = False
      self.cube += 1
      self.owner = seat
      self.dice = (w.rand_int(1, 6), w.rand_int(1, 6))
    elif cmd == 'reject' and answering:
      self.win(1 - seat, 2 ** self.cube)
    elif cmd == 'move' and playing and self.dice != (0, 0):
      a, b = self.dice
      for die in a == b and [a] * 4 or [a, b]:
        pms, self.pos = boards.partial_moves(w, self.pos, seat, 1, [die])
      if not sum(self.pos[seat]):
        self.win(seat, 2 ** self.cube)
      else:
        self.turn = 1 - seat
        self.dice = (0, 0)
    else:
      return False
    self.left -= 1
    return True

  def view(self, seat, names):
    """what a client that sees the match from this seat must show"""
    other = 1 - seat
    side = lambda s: 0 if s == seat else 1
    d = dict(position=(self.pos[seat], self.pos[other]), score=(self.score[seat], self.score[other]),
             cube_in_logarithm=self.cube, crawford=self.crawford, doubled=self.doubled, match_length=self.ml,
             cube_owner=3 if self.owner is None else side(self.owner), resign_offer=0)
    if self.over:
      d.update(rolled=(0, 0), on_action=3, on_inner_action=3, game_state=2)
    else:
      d.update(rolled=self.dice, on_action=side(self.turn), game_state=1,
               on_inner_action=side(1 - self.turn if self.doubled else self.turn))
    return d

  def line(self, seat, you, him, colour, direction):
    """the board message (http://www.fibs.com/fibs_interface.html#board_state)"""
    own, his = self.pos[seat], self.pos[1 - seat]
    raw = [0] * 26
    for p in range(24):
      i = direction < 0 and p + 1 or 24 - p
      if own[p]:
        raw[i] = own[p] * colour
      if his[23 - p]:
        raw[i] = -his[23 - p] * colour
    bar, home = direction < 0 and (25, 0) or (0, 25)
    raw[bar], raw[home] = own[24] * colour, -his[24] * colour
    turn = 0
    dice = (0, 0, 0, 0)
    if not self.over:
      turn = self.turn == seat and colour or -colour
      dice = self.turn == seat and self.dice + (0, 0) or (0, 0) + self.dice
    may = self.crawford and (0, 0) or (int(self.owner in (None, seat)), int(self.owner in (None, 1 - seat)))
    f = [you, him, self.ml, self.score[seat], self.score[1 - seat]] + raw + [turn] + list(dice) + [2 ** self.cube]
    f += list(may) + [int(self.doubled), colour, direction, home, bar, 15 - sum(own), 15 - sum(his), own[24], his[24],
                      self.w.choose(5), 0, 0, self.w.choose(3)]
    return 'board:' + ':'.join(map(str, f))


class Conn(object):
  """the server's end of one connection"""
  def __init__(self, srv, ep, seat, who):
    self.srv, self.ep, self.seat, self.who = srv, ep, seat, who
    self.w = srv.w
    self.buf = ''
    self.ready = False
    self.dead = False
    self.boards = []          # (line, view), in order sent
    self.seen = 0
    self.cut = None
    ep.on_data = self.data
    ep.on_eof = lambda ep: self.drop(None)
    self.colour, self.direction = self.w.pick([1, -1], 'colour'), self.w.pick([-1, 1], 'direction')
    ep.push('login: ')
    self.fuse = srv.faulty and self.w.flip(srv.drops, 'will drop') and self.w.rand_int(1, 12, 'fuse') or 0

  def data(self, ep, chunk):
    self.buf += chunk
    while CRLF in self.buf:
      line, self.buf = self.buf.split(CRLF, 1)
      if self.dead:
        return
      if not self.ready:
        self.ready = True
        for l in ['1 %s 1041253132 here' % self.who, '2 %s 1 1' % self.who, '3', '| hello |', '4']:
          self.send(l)
        self.board()
      else:
        self.srv.command(self, line)

  def send(self, line):
    if self.dead:
      return
    if self.fuse:
      self.fuse -= 1
      if not self.fuse and self.srv.faulty:
        n = self.w.choose(len(line) + 2, 'cut')
        if n:
          self.ep.push((line + CRLF)[:n])
        self.cut = line
        self.drop(self.w.pick(['eof', 'reset', 'reset-drop']))
        return
    self.ep.push(line + CRLF)

  def drop(self, how):
    if self.dead:
      return
    self.dead = True
    if how is None:
      self.ep.push_eof()
      return
    self.w.fault('connection-' + how)
    if how == 'eof':
      self.ep.push_eof()
    else:
      self.ep.push_reset(errno.ECONNRESET, 0.0, how == 'reset-drop')

  def board(self):
    if not self.ready or self.dead:
      return
    m = self.srv.match
    line = m.line(self.seat, self.who, self.srv.names[1 - self.seat], self.colour, self.direction)
    self.boards.append((line, m.view(self.seat, None)))
    self.send(line)


class Server(object):
  def __init__(self, case):
    self.case, self.w = case, case.w
    self.names = ['alice', 'Bob_x']
    self.match = Match(self.w)
    self.conns = []
    self.faulty = True
    self.drops = self.w.pick([0.0, 0.3, 0.7], 'drops')
    self.chatty = self.w.pick([0.0, 0.3], 'chat')
    self.done = False

  def listener(self, seat, who):
    class L(object):
      def connected(l, ep):
        c = Conn(self, ep, seat, who)
        self.conns.append(c)
        self.case.client_of[who].conn = c
    return L()

  def command(self, conn, line):
    if conn.who not in self.names:
      return
    if self.match.command(self.names.index(conn.who), line):
      self.w.mix(line)
      self.publish()

  def publish(self):
    w = self.w
    live = [c for c in self.conns if not c.dead]
    if len(live) > 1 and w.flip(0.5, 'order'):
      live.reverse()
    for c in live:
      if self.chatty and w.flip(self.chatty, 'chat'):
        c.send(w.pick(CHAT))
      c.board()
    m = self.match
    if m.over and m.left > 0 and max(m.score) < m.ml:
      w.after(0.5, self.again, 'new game')
    elif m.left <= 0 or m.over:
      self.done = True

  def again(self):
    if self.match.over and not self.done:
      self.match.newgame()
      self.publish()

  def crash(self):
    """the server process dies and is started again with the match it had saved"""
    self.w.fault('server-restart')
    for c in self.conns:
      c.drop('reset-drop')
    self.case.net.connect_faults += [serr(errno.ECONNREFUSED)] * self.w.choose(3, 'refused')


class Client(object):
  def __init__(self, case, i, seat, who, plays):
    self.case, self.w = case, case.w
    self.i, self.seat, self.who, self.plays = i, seat, who, plays
    self.conn = None
    self.editor = None
    self.s = None
    self.synced = False         # the editor holds a board of the session it has
    self.quit = False
    self.got = 0
    self.truncated = 0
    self.sessions = 0
    self.restarts = case.w.flip(case.p_restart, 'restarts')

  def run(self):
    case, w, T = self.case, self.w, self.case.env.sim['threading']
    self.editor = case.m.BoardEditor()
    while not self.quit:
      s = case.S.Session()
      self.lost = T.Event()
      sub = case.Follower(self, s)
      s.register(sub)
      self.s = s
      try:
        s.open('fibs', 4000 + self.i)
      except simmods.SockError:
        w.sleep(0.2)
        continue
      self.sessions += 1
      limit = None
      if self.restarts and case.srv.faulty and w.flip(0.5, 'restart'):
        limit = w.pick([0.05, 0.2, 1.0])
      self.lost.wait(limit)
      self.synced = False
      if not self.lost.isSet():
        w.fault('client-restart')
        s.close()
        self.editor = case.m.BoardEditor()
        continue
      s.close()
      w.sleep(w.pick([0.01, 0.3]))

  def on_board(self, s, conn, got):
    case, w = self.case, self.w
    e = self.editor
    self.synced = False
    before = boards.fields_dict(e)
    whole = conn.seen < len(conn.boards) and conn.boards[conn.seen] or None
    if whole is not None and got == whole[0]:
      conn.seen += 1
      self.got += 1
      case.decode(e, got)
      self.same(e, whole[1], got)
      self.synced = self.s is s
      self.answer(s)
      return
    # a line cut off with the connection: all of it or nothing
    case.want(whole is not None and conn.cut == whole[0] and whole[0].startswith(got), 'unexpected-board',
              '%s got %r, next is %r' % (self.who, got, whole))
    self.truncated += 1
    w.probe('board-cut-short')
    try:
      case.decode(e, got)
    except Exception, x:
      after = boards.fields_dict(e)
      case.want(after == before, 'mixed', '%s: %r refused with %r but left %r' % (self.who, got, x, differ(after, before)))
    else:
      self.same(e, whole[1], got)

  def same(self, e, want, got):
    have = boards.fields_dict(e)
    case = self.case
    case.want(differ(have, want) == {}, 'board-differs', '%s after %r: %r, the server has %r' %
              (self.who, got, differ(have, want), differ(want, have)))

  def answer(self, s):
    """what the player does next, judged by the decoded board alone"""
    if not self.plays:
      return
    e, w = self.editor, self.w
    if e.game_state != 1 or e.on_inner_action != 0:
      return
    if e.on_action == 1:
      cmd = e.doubled and w.pick(['accept', 'accept', 'reject'])
    elif e.rolled == (0, 0):
      cmd = w.pick(['roll', 'roll', 'double', 'move'])
      if cmd in ('double', 'move'):
        self.say(s, cmd)          # may be refused
        cmd = 'roll'
    else:
      cmd = 'move'
    if cmd:
      self.say(s, cmd)

  def say(self, s, cmd):
    try:
      s.send_line(cmd)
    except (simmods.SockError, AttributeError, EOFError):
      self.w.probe('command-lost')


def differ(a, b):
  return dict((k, a[k]) for k in KEYS if a[k] != b[k])


class Case(sess.Base):
  def __init__(self, w):
    sess.Base.__init__(self, w)
    sess.tune(w, self.net)
    self.net.seg = w.pick([0, 0, 9, 60], 'seg2')
    self.net.short_recv = w.pick([0, 0, 0, 20], 'short')
    self.p_restart = w.pick([0.0, 0.0, 0.5])
    self.srv = Server(self)
    self.client_of = {}
    self.clients = []
    for i, (seat, who, plays) in enumerate([(0, 'alice', True), (1, 'Bob_x', True)] +
                                           [(w.choose(2, 'side'), 'w' * (k + 1), False) for k in range(w.weighted([3, 2, 1]))]):
      c = Client(self, i, seat, who, plays)
      self.clients.append(c)
      self.client_of[who] = c
      self.net.listen(('fibs', 4000 + i), self.srv.listener(seat, who))
    self.crashes = [w.pick([0.1, 0.5, 2.0]) for k in range(w.weighted([4, 1, 1], 'crashes'))]
    self.quiet_at = w.pick([0.5, 3.0, 6.0], 'faults stop')

  def want(self, cond, kind, detail):
    if not cond:
      self.w.fail(kind, detail)

  def main(self):
    w, env = self.w, self.env
    self.S = S = env.load('bglib.protocol.session')
    self.decode = env.load('bglib.encoding.FIBS').decode
    self.m = env.load('bglib.model')
    case = self
    class Follower(S.Subscriber):
      def __init__(self, client, s):
        S.Subscriber.__init__(self)
        self.client, self.s = client, s
        self.conn = None
      def FIBS_LoginPrompt(self, got):
        self.conn = self.client.conn
        self.client.say(self.s, 'login sim 1008 %s pw' % self.client.who)
      def FIBS_Board(self, got):
        w.op('board')
        try:
          self.client.on_board(self.s, self.conn, got)
        except StandardError, e:
          import traceback
          case.want(False, 'decode-raised', '%s: decoding %r raised %r\n%s' % (self.client.who, got, e, traceback.format_exc()))
      def EOFError(self, e):
        self.client.lost.set()
      def socket_error(self, e):
        self.client.lost.set()
    self.Follower = Follower
    for t in self.crashes:
      w.after(t, self.srv.crash, 'server crash')
    w.after(self.quiet_at, self.calm, 'faults stop')
    T = env.sim['threading']
    self.ts = [T.Thread(target=c.run) for c in self.clients]
    for t in self.ts: t.start()
    still, last = 0, None
    while still < 100:
      w.sleep(1.0)
      now = self.srv.match.left, sum(c.got for c in self.clients)
      still, last = (0, now) if now != last else (still + 1, now)
      if self.srv.done and not self.srv.faulty and self.settled():
        break
    else:
      self.want(False, 'no-progress', 'the match stands still, %d events left, %d boards seen' %
                (self.srv.match.left, sum(c.got for c in self.clients)))
    self.final()
    for c in self.clients:
      c.quit = True
      if c.conn is not None:
        c.conn.drop('eof')
    for t in self.ts: t.join()

  def calm(self):
    self.srv.faulty = False
    self.net.connect_faults[:] = []
    for c in self.srv.conns:
      c.fuse = 0

  def settled(self):
    for c in self.clients:
      k = c.conn
      if not c.synced or k.dead or not k.boards or k.seen < len(k.boards):
        return False
    return True

  def final(self):
    m = self.srv.match
    for c in self.clients:
      c.same(c.editor, m.view(c.seat, None), 'the whole match')
    a, b = self.m.BoardEditor(self.clients[0].editor), self.clients[1].editor
    a.flip()
    self.want(boards.fields_dict(a) == boards.fields_dict(b), 'not-mirrored', '%r and %r' %
              (differ(boards.fields_dict(a), boards.fields_dict(b)), differ(boards.fields_dict(b), boards.fields_dict(a))))

  def judge(self):
    w = self.w
    self.check_logged()
    self.require(w.violation is None, *(w.violation or ('', '')))
    self.require(not [x for x in w.left_info], 'stuck', repr(w.left_info))

  def nontrivial(self):
    return min(c.got for c in self.clients) > 2 and busy(self.w)

  def sample(self):
    return dict(clients=[(c.who, c.seat, c.got, c.sessions, c.truncated) for c in self.clients],
                score=self.srv.match.score, events_left=self.srv.match.left)


def busy(w):
  return w.switches > 5
