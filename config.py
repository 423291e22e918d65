SIM = ['thread scheduling (who runs, preemption at any source line)', 'threading/thread/Queue locks and events',
       'clock', 'random', 'logging']
NET = ['TCP sockets, select/poll', 'FIBS server peers']
SESSION_REAL = ['bglib/protocol/session.py', 'bglib/protocol/fibs.py', 'telnetlib (Jython 2.7 standard library source)']
RULE = ('one case = one seeded simulated run (workload, knobs, schedule, faults all drawn from the seed); '
        'non-trivial = %s; distinct = different schedule hash')

CHECKS = {
 'S01': dict(module='s01', quick=15000, thorough=400000, level='exploration', real=SESSION_REAL, stub=SIM + NET,
             rule=RULE % 'at least two callbacks delivered and three context switches'),
}
def _s(id, rule, quick=12000, thorough=300000, **kw):
    CHECKS[id] = dict(module=id.lower(), quick=quick, thorough=thorough, level='exploration', real=SESSION_REAL,
                      stub=SIM + NET, rule=RULE % rule, **kw)
_s('S02', 'more than two messages classified')
_s('S03', 'more than two callbacks and at least one completed unregistration')
_s('S04', 'more than one line sent successfully and three context switches')
_s('S05', 'at least one callback and one close')
_s('S06', 'at least two protected sections entered and one contended lock')
_s('S07', 'a callback was delivered and the connection was lost or an open failed')
_s('P01', 'a client connected and the script is not empty')
CHECKS['P01']['real'] = ['bglib/protocol/server.py (run as the script it is)']
CHECKS['P01']['stub'] = SIM + ['TCP sockets', 'script file on a simulated disk', 'sys.argv', 'the client']
_s('F01', 'at least one child ran to an end and one trial was attempted')
CHECKS['F01']['real'] = ['bglib/doc/fuzzing.py', 'bglib/doc/html.py']
CHECKS['F01']['stub'] = SIM + ['processes, fork, pipes, select, kill, waitpid', 'the document formatter under test']
_s('B01', 'at least two records read successfully')
CHECKS['B01']['real'] = ['bglib/encoding/bearoff/__init__.py', 'bglib/encoding/bearoff/trice.py', 'bglib/encoding/bearoff/nori.py', 'bglib/encoding/bearoff/gnubgdb.py']
CHECKS['B01']['stub'] = SIM + ['disk files', 'tonic (missing third-party package; named only)']
_s('C01', 'a sheet with at least one rule was loaded')
CHECKS['C01']['real'] = ['bglib/image/css.py', 'bglib/image/base.py']
CHECKS['C01']['stub'] = SIM + ['disk files']
_s('R01', 'at least two records accepted, refused or chopped')
CHECKS['R01']['real'] = ['bglib/record/snowietxt.py']
CHECKS['R01']['stub'] = SIM + ['disk files', 'decorator, tonic.lineparser (missing third-party packages: name-keeping wrapper; handler named like the matching group)']
_s('D01', 'two drawings, at least one of them successful', quick=3000, thorough=60000)
CHECKS['D01']['real'] = ['bglib/image/draw.py', 'bglib/image/PIL.py', 'bglib/image/base.py', 'bglib/image/css.py', 'bglib/model/board.py', 'bglib/model/boardeditor.py']
CHECKS['D01']['stub'] = SIM + ['disk files', 'PIL Image/ImageDraw/ImageFont (record operations, fail on demand)']
_s('T01', 'more than one completed round')
CHECKS['T01']['real'] = ['bglib/stat/tourney.py', 'bglib/stat/rating.py']
CHECKS['T01']['stub'] = SIM
DOC_REAL = ['bglib/doc/' + x for x in ('bgwiki.py', 'doctree.py', 'macro.py', 'html.py', 'mkdn.py', 'rst.py', 'mock.py')]
_s('W01', 'two documents were compared', quick=4000, thorough=100000)
CHECKS['W01']['real'] = DOC_REAL + ['markdown, docutils (third party, not preempted inside)']
CHECKS['W01']['stub'] = SIM + ['analysis database']
_s('W02', 'rendered more than once, with an analysis table shown or a database error', quick=2500, thorough=60000)
CHECKS['W02']['real'] = CHECKS['W01']['real']
CHECKS['W02']['stub'] = SIM + ['analysis database', 'memory failures while rendering']
_s('M01', 'an edit, an editor made from another or from a board, and more than one frozen board', quick=8000)
CHECKS['M01']['real'] = ['bglib/model/board.py', 'bglib/model/boardeditor.py', 'bglib/model/move.py (PartialMove, Move)']
CHECKS['M01']['stub'] = SIM
_s('M02', 'a game was settled and a request was refused', quick=5000, thorough=200000)
CHECKS['M02']['real'] = ['bglib/model/board.py', 'bglib/model/boardeditor.py']
CHECKS['M02']['stub'] = SIM + ['the two players, their messages, and the server loop that holds the board']
_s('K01', 'a match was picked up again', quick=5000, thorough=200000)
CHECKS['K01']['real'] = ['bglib/encoding/gnubgid.py', 'bglib/encoding/dbbyte.py', 'bglib/model/board.py', 'bglib/model/boardeditor.py']
CHECKS['K01']['stub'] = SIM + ['the server and its journal', 'tonic.BitsArray (missing third-party package: bits packed lowest first, as gnubgid_test.py shows)']
_s('M03', 'a question was asked, more than one partial move made, one undone', quick=8000)
CHECKS['M03']['real'] = ['bglib/model/move.py', 'bglib/model/board.py', 'bglib/model/boardeditor.py', 'bglib/model/util.py']
CHECKS['M03']['stub'] = SIM
_s('E01', 'every client decoded more than two boards', quick=2000, thorough=40000)
CHECKS['E01']['real'] = SESSION_REAL + ['bglib/encoding/FIBS.py', 'bglib/model/boardeditor.py', 'bglib/model/board.py']
CHECKS['E01']['stub'] = SIM + NET + ['the FIBS server with its match, its drops and restarts']
