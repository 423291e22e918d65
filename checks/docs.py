# -*- coding: us-ascii -*-
"""document generators and helpers shared by the formatter checks"""
import re

WORDS = ['alpha', 'beta7', 'CamelWord', 'x < y', 'a & b', 'what?', 'm12', '#34', 'entry:5', 'query:77', '{12}', '[9]',
         'match:4', 'http://example.com/a?b=1', '[http://example.com/ shown]', '[wiki:SandBox]', '!CamelWord', '!#12',
         '8/5 6/5', '-', 'q"q']
INLINE = ["'''%s'''", "''%s''", '__%s__', '~~%s~~', ',,%s,,', '^%s^', '`%s`', '{{{%s}}}', "'''''%s'''''", "'''%s", "''%s", '%s`']
POSITIONS = ['vzsAAFhu2xFABA:QYkqASAAIAAA', 'cNcxAxCY54YBBg:cAn7ADAAIAAA', '4HPwATDgc/ABMA:8IhuACAACAAE']
MACROS = ['[[BR]]', '[[NoSuchMacro(x)]]', '[[NoSuchMacro]]', '[[Position(%s)]]' % POSITIONS[0],
          '[[Position(%s, css=nature)]]' % POSITIONS[1], '[[Position(junk)]]']
MARKDOWN = ['# Head', '## Sub', '* item', '1. one', '> quoted', '    code', '**bold** text', '[a](http://b/)', '---', '',
            'plain line', '`mono`', '![i](x.png)', '[ref]: http://%s/', 'see [ref][] or [this][ref]', '<b>raw</b>', '*[x]: y']
RST = ['Title', '=====', '* item', 'plain *text*', '``mono``', '', '- a', '  b', ':field: value', '::', '    literal']


def words(w, n=3):
  return ' '.join(w.pick(WORDS, 'word') for i in range(w.rand_int(1, n, 'words')))


def inline(w):
  s = words(w)
  if w.flip(0.5, 'markup'):
    s += ' ' + w.pick(INLINE) % words(w, 2)
  return s


def wiki_line(w, macros=(), headings=True, heavy=False):
  """one or more lines of wiki text"""
  k = w.weighted([5, 3, 4, 2, 2, 2, 1, 2, 2, 1, heavy and 60 or 2, 1], 'line kind')
  if k == 0:
    return [inline(w)]
  if k == 1:
    return ['']
  if k == 2:
    return [' ' * w.rand_int(1, 3) + w.pick(['*', '+', '++', '+++', '-', '--', '---', '1.', '2.', 'a.', 'i.', 'iv.']) + ' ' + inline(w)
            for i in range(w.rand_int(1, 3))]
  if k == 3:
    h = headings and w.pick(['=', '==', '==='])
    return ['%s %s %s' % (h, w.pick(['Head', 'Other head', 'CamelHead', 'H 1']), h)] if h else [inline(w)]
  if k == 4:
    return ['||' + '||'.join(words(w, 1) for j in range(w.rand_int(1, 3))) + '||' for i in range(w.rand_int(1, 2))]
  if k == 5:
    return ['>' * w.rand_int(1, 3) + ' ' + inline(w)]
  if k == 6:
    return ['  ' + inline(w)]
  if k == 7:
    return [words(w, 1) + '::', '  ' + inline(w)]
  if k == 8:
    return ['{{{'] + [w.pick(['', 'raw <b> & text', '  indented', "'''not bold'''", '[[Timestamp]]', '= no head ='])
                      for i in range(w.choose(4))] + ['}}}']
  if k == 9:
    return ['{{{', '#!preformat', 'raw <i>', '}}}']
  if k == 10 and macros:
    return [w.pick(['', words(w, 1) + ' ', '||', ' * ', '> ']) + w.pick(list(macros), 'macro')]
  return [inline(w) + w.pick(['', '::', '||', ' >', ' {{{', '[['])]


def wiki(w, n, macros=MACROS, headings=True, rst=False, heavy=False):
  out = []
  for i in range(n):
    out.extend(wiki_line(w, macros, headings, heavy))
  if rst:
    out += ['{{{', '#!rst'] + [w.pick(RST) for i in range(w.choose(5))] + ['}}}']
  return out


ISO = re.compile(r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(?:\.\d+)?')
TAG = re.compile(r'<[^<>]*>')


def visible(html):
  return re.sub(r'\s+', '', TAG.sub('', html))


def unbalanced(html):
  """None when every element is closed where it should be"""
  stack = []
  for m in re.finditer(r'<(/?)([a-zA-Z0-9]+)([^<>]*?)(/?)>', html):
    close, name, rest, single = m.groups()
    if single:
      continue
    if close:
      if not stack or stack[-1] != name:
        return '</%s> at %d inside %r' % (name, m.start(), stack[-3:])
      stack.pop()
    else:
      stack.append(name)
  return stack and '%r never closed' % stack or None


def opened_only(html):
  """html without the closing tags and white space it ends with"""
  return re.sub(r'(\s|</[a-zA-Z0-9]+>)+$', '', html)
