"""C19: the display shows exactly the computed numbers."""
import copy
import html as htmllib
import re

from engine import compare
from engine import obligation as O
from engine import spec as S
from engine.facade import sympd
from props import C05

P = 'C19'
LEVEL = 'proof'
TECHNIQUE = (
    'contract-based deductive verification: the content and colour of a cell '
    '(MetricFormatter) equals the documented one for all values, ratios and '
    'intervals, missing or not, on symbolically executed real code, '
    'discharged by z3; bounded suites compare whole tables (rows, columns, '
    'orders, options, display()) with an independent oracle')
NOTE = (
    'In the obligations lower <= upper is assumed, and str.format is a token '
    'that carries the number and the format. Layout (pivoting, sorting, '
    'options) is compared on generated tables only.')
CELL = ['confidence_interval_display.MetricFormatter.__call__',
        'confidence_interval_display.MetricFormatter._format_value',
        'confidence_interval_display.MetricFormatter.__init__']
SCH = {'v': 'num', 'r': 'num', 'l': 'num', 'u': 'num'}
FORMATS = {'percent': (2, '%', 1), 'absolute': (4, '', 1), 'pp': (2, 'pp', 1),
           '{:.1f}': (1, '', 1), '{:.3f}': (3, '', 1)}
NUM = re.compile(r'-?\d+\.\d+')


def read(html):
  """[colour, text with # for numbers, number, ...] of a cell."""
  colour = {(True, False): 'good', (False, True): 'bad',
            (False, False): 'none'}.get(
                ('ci-display-good-change' in html,
                 'ci-display-bad-change' in html), 'both')
  parts = [p for p in re.split(r'<[^>]*>', html) if p.strip()]
  text = '|'.join(p.strip() for p in parts)
  if '\x01' in text:
    text, found = sympd.numbers_in(text)
    nums = [n for n, _ in found]
    digits = [f[1:-1] if f[:1] == '.' and f[-1:] == 'f' else f
              for _, f in found]
  else:
    found = NUM.findall(text)
    text = NUM.sub('#', text)
    nums = [float(f) for f in found]
    digits = [str(len(f.split('.')[1])) for f in found]
  return [colour + ';' + text + ';' + ','.join(digits)] + nums


def isnull(v):
  if isinstance(v, sympd.SymNum):
    return sympd.isnull(v)
  return v is None or v != v


def expected(value, ratio, lower, upper, vform, rform, flip, hide):
  """The documented content of a cell, in the form of read()."""
  vd, vunit, _ = FORMATS[vform]
  rd, runit, _ = FORMATS[rform]
  lines, nums, digits = [], [], []

  def num(x, d):
    if isnull(x):
      return 'N/A'
    nums.append(x)
    digits.append(str(d))
    return '#'
  if isnull(ratio):
    t = num(value * 100 if vform == 'percent' and not isnull(value) else value,
            vd)
    return ['none;%s;%s' % (t + vunit if t == '#' else t, ','.join(digits))
            ] + nums
  if isnull(value):
    if not hide:
      lines.append('-')
  else:
    lines.append(num(value * 100 if vform == 'percent' else value, vd) + vunit)
  lines.append(num(ratio, rd) + runit)
  ci = '[%s, %s]' % (num(lower, rd), num(upper, rd))
  lines.append(ci + (' ' + runit if runit else ''))
  colour = 'none'
  if not isnull(lower) and lower > 0:
    colour = 'bad' if flip else 'good'
  if not isnull(upper) and upper < 0:
    colour = 'good' if flip else 'bad'
  return ['%s;%s;%s' % (colour, '|'.join(lines), ','.join(digits))] + nums


def fields(ms, df):
  return [ms.Max(c).compute_on(df, return_dataframe=False) for c in 'vrlu']


def cell(ms, df, vform, rform, flip, hide):
  fm = ms.operations.confidence_interval_display.MetricFormatter(
      {'Value': vform, 'Ratio': rform}, flip, hide)
  return read(fm(tuple(fields(ms, df))))


def gen(rng, i):
  rows = O.gen_table(SCH, rng, i, 4)
  for r in rows:
    for c in 'vrlu':
      r[c] = None if rng.random() < .15 else float(rng.randint(-5, 5))
  if i % 3 == 0:
    c = rng.choice('vrlu')
    for r in rows:
      r[c] = None
  return rows


for _v, _r in (('absolute', 'absolute'), ('percent', 'percent'),
               ('absolute', 'percent'), ('absolute', 'pp'),
               ('percent', '{:.1f}'), ('{:.3f}', 'absolute')):
  for _flip in (False, True):
    for _hide in (False, True):
      O.Obligation(
          'C19.cell.%s.%s.%s%s' % (_v, _r, 'flip.' if _flip else '',
                                   'hide' if _hide else 'show'), P, CELL, SCH,
          lambda ms, df, a=(_v, _r, _flip, _hide): cell(ms, df, *a),
          spec2=lambda ms, df, a=(_v, _r, _flip, _hide): expected(
              *(fields(ms, df) + list(a))),
          gen=gen, n=24, needs=[lambda rows: ~(
              rows.max(lambda r: r['l']) > rows.max(lambda r: r['u']))])


# ------------------------------------------------------------------ tables

TABLE = ['confidence_interval_display.get_formatted_df',
         'confidence_interval_display._pre_aggregate_df',
         'confidence_interval_display._sorted_long_to_wide',
         'confidence_interval_display._merge_dimensions',
         'confidence_interval_display._add_is_control_and_control_id',
         'confidence_interval_display.add_control_rows',
         'confidence_interval_display._get_formatter',
         'confidence_interval_display.dimension_formatter',
         'confidence_interval_display.render',
         'confidence_interval_display.display_formatted_df']


def null(v):
  return v is None or v != v


def text(cell):
  return [htmllib.unescape(p).strip() for p in re.split(r'<[^>]*>', cell)
          if p.strip()]


def number(rng, places):
  return rng.choice([0., round(rng.uniform(-3, 3), places),
                     round(rng.uniform(-300, 300), places), -1e-5, 123456.789])


def long_rows(rng, metrics, dims, exps, missing):
  """One dict per metric, slice and experiment."""
  keys = [()]
  for vals in dims:
    keys = [k + (v,) for k in keys for v in vals]
  rows = []
  for k in keys:
    for e in exps:
      if rng.random() < .15:
        continue
      for m in metrics:
        if rng.random() < .1:
          continue
        w = abs(number(rng, 3))
        r = number(rng, 4)
        row = {'dims': k, 'exp': e, 'metric': m, 'value': number(rng, 5),
               'ratio': r, 'lo': r - w, 'hi': r + w}
        if rng.random() < .2:
          row['lo'], row['hi'] = rng.choice(
              [(0., abs(r)), (-abs(r), 0.), (.01, .02), (-.02, -.01)])
        for f in ('value', 'ratio', 'lo', 'hi'):
          if rng.random() < missing:
            row[f] = None
        rows.append(row)
  rng.shuffle(rows)
  return rows


def plan(rng):
  """A long table and the options to display it with."""
  metrics = rng.sample(['clicks', 'ctr', 'a b', 'Z', '10'], rng.randint(1, 3))
  nd = rng.choice([0, 0, 1, 1, 2])
  dims = [rng.sample(['x', 'y', 'zz'], 2), rng.sample([1, 2, 10], 2)][:nd]
  rng.shuffle(dims)
  exps = rng.choice([['c', 'e1', 'e2'], ['c', 'e1'], [0, 1, 2], [3, 0], ['b'],
                     ['c', 'd', 'e1', 'e2']])
  p = {'metrics': metrics, 'exps': exps, 'o': {}}
  p['has_exp'] = rng.random() < .9
  if not p['has_exp']:
    exps = p['exps'] = exps[:1]
  p['rows'] = long_rows(rng, metrics, dims, exps, rng.choice([0, .1]))
  p['dims'] = ['Dim_%d' % (i + 1) for i in range(nd)]
  o = p['o']
  if nd and rng.random() < .5:
    p['dims'] = ['Country', 'a'][:nd]
    o['dims'] = p['dims'][0] if nd == 1 and rng.random() < .5 else p['dims'][:]
  p['ctrl_col'] = None
  if p['has_exp']:
    how = rng.choice(['id', 'id', 'dict', 'dict', 'col', 'none'])
    if how == 'id':
      o['ctrl_id'] = exps[0]
      p['ctrl'] = {e: exps[0] for e in exps}
    elif how == 'dict':
      n = rng.choice([1, 2]) if len(exps) > 2 else 1
      ids = exps[:n]
      p['ctrl'] = {e: e for e in ids}
      o['ctrl_id'] = {e: [] for e in ids}
      for e in exps[n:]:
        if rng.random() < .9:  # Else e has no control.
          c = rng.choice(ids)
          o['ctrl_id'][c].append(e)
          p['ctrl'][e] = c
    elif how == 'col':
      p['ctrl_col'] = True
      p['ctrl'] = {e: exps[0] for e in exps}
    else:
      p['ctrl'] = None
  else:
    p['ctrl'] = None
  p['range'] = rng.random() < .25
  p['desc'] = None
  if p['has_exp'] and rng.random() < .3:
    p['desc'] = {e: rng.choice(['foo', 'a long description ' * 4, '', None])
                 for e in exps}
  if rng.random() < .4:
    o['auto_add_description'] = rng.random() < .5
  o['aggregate_dimensions'] = rng.random() < .6
  if rng.random() < .5:
    o['display_expr_info'] = rng.random() < .6
  if rng.random() < .4:
    o['show_control'] = rng.random() < .4
  if rng.random() < .3:
    o['show_metric_value_when_control_hidden'] = rng.random() < .7
  if rng.random() < .3:
    o['hide_null_ctrl'] = rng.random() < .6
  if rng.random() < .4:
    o['flip_color'] = rng.sample(metrics, rng.randint(1, len(metrics)))
  if rng.random() < .4:
    o['metric_order'] = rng.sample(metrics, rng.randint(1, len(metrics)))
  if rng.random() < .6:
    o['metric_formats'] = {
        k: rng.choice(sorted(FORMATS)) for k in ('Value', 'Ratio')
        if rng.random() < .8}
  p['cv'] = None
  if p['ctrl'] and p['has_exp'] and o.get('show_control', True) and (
      rng.random() < .3) and not p['desc']:
    o['auto_decide_control_vals'] = True
    eps = rng.choice([0, 0, 3e-6, .3, 2])
    p['cv'] = {}
    for r in p['rows']:
      k = (r['metric'], p['ctrl'].get(r['exp'])) + r['dims']
      p['cv'].setdefault(k, number(rng, 2))
      r['cv'] = p['cv'][k] + rng.choice([0, 0, eps])
      if rng.random() < .1:
        r['cv'] = None
    ids = set(p['ctrl'].values())
    if rng.random() < .5:
      gone = rng.random()
      p['rows'] = [r for r in p['rows']
                   if r['exp'] not in ids or rng.random() > gone]
  p['rename'] = rng.random() < .3
  keys = []
  present = sorted({m for r in oracle(p) for m in r['cells']})
  if p['rows'] and rng.random() < .5:
    cand = [('col', d) for d in p['dims']] + [
        ('field', f, m) for m in present
        for f in ('Value', 'Ratio', 'CI_Lower', 'CI_Upper')]
    if p['has_exp']:
      cand += [('col', 'exp')] * 2
    for c in dict.fromkeys(
        rng.sample(cand, min(len(cand), rng.randint(1, 2)))):
      k = {'by': c}
      if rng.random() < .6:
        k['ascending'] = rng.random() < .5
      if c[0] == 'col' and rng.random() < .5:
        vals = (exps if c[1] == 'exp' else
                sorted({r['dims'][p['dims'].index(c[1])]
                        for r in p['rows']}))
        k['order'] = rng.sample(vals, rng.randint(1, len(vals)))
      keys.append(k)
  p['keys'] = keys
  return p


NAMES = {'metric': 'what', 'ratio': 'chg', 'value': 'val', 'ci_upper': 'up',
         'ci_lower': 'low', 'ci_range': 'rg', 'control_value': 'cval',
         'expr_id': 'arm', 'description': 'note'}
FIXED = {'metric': 'Metric', 'ratio': 'Ratio', 'value': 'Value',
         'ci_upper': 'CI_Upper', 'ci_lower': 'CI_Lower',
         'ci_range': 'CI_Range', 'control_value': 'Control_Value',
         'expr_id': 'Experiment_Id', 'description': 'Description'}


def table(ms, p, rng):
  """The DataFrame and the arguments of get_formatted_df for a plan."""
  n = NAMES if p['rename'] else FIXED
  cols = {}
  rows = p['rows']
  for i, d in enumerate(p['dims']):
    cols[d] = [r['dims'][i] for r in rows]
  if p['has_exp']:
    cols[n['expr_id']] = [r['exp'] for r in rows]
  cols[n['metric']] = [r['metric'] for r in rows]
  cols[n['value']] = [r['value'] for r in rows]
  cols[n['ratio']] = [r['ratio'] for r in rows]
  if p['range']:
    for r in rows:
      r['range'] = None if null(r['lo']) or null(r['hi']) else r['hi'] - r['lo']
      bad = null(r['range']) or null(r['ratio'])
      r['lo'] = None if bad else r['ratio'] - r['range'] / 2
      r['hi'] = None if bad else r['ratio'] + r['range'] / 2
    cols[n['ci_range']] = [r['range'] for r in rows]
  else:
    cols[n['ci_lower']] = [r['lo'] for r in rows]
    cols[n['ci_upper']] = [r['hi'] for r in rows]
  if p['ctrl_col']:
    cols['Control_Id'] = [p['ctrl'][r['exp']] for r in rows]
  if p['cv'] is not None:
    cols[n['control_value']] = [r['cv'] for r in rows]
  if p['desc']:
    cols[n['description']] = [p['desc'][r['exp']] for r in rows]
  order = list(cols)
  rng.shuffle(order)
  df = ms.pd.DataFrame({c: cols[c] for c in order})
  for c in (n['value'], n['ratio'], n.get('ci_lower'), n['ci_upper'],
            n['ci_range'], n['control_value']):
    if c in df:
      df[c] = df[c].astype(float)
  kw = copy.deepcopy(p['o'])
  if p['rename']:
    kw.update(n)
  if p['keys']:
    kw['sort_by'] = []
    for k in p['keys']:
      s = {x: v for x, v in k.items() if x != 'by'}
      by = k['by']
      if by[0] == 'field':
        s['column'] = by[1:]
      else:
        s['column'] = n['expr_id'] if by[1] == 'exp' else by[1]
      kw['sort_by'].append(s)
  return df, kw


def oracle(p):
  """[{dims, exp, ctrl, is_ctrl, desc, cells}], in the default order."""
  o = p['o']
  ctrl = p['ctrl']
  show = o.get('show_control', True)
  out = {}

  def head(r_dims, exp):
    if (r_dims, exp) not in out:
      h = {'dims': r_dims, 'exp': exp, 'ctrl': None, 'is_ctrl': None,
           'desc': None, 'cells': {}}
      if ctrl is not None:
        h['ctrl'] = ctrl.get(exp)
        h['is_ctrl'] = exp in set(ctrl.values())
      if p['desc']:
        h['desc'] = p['desc'][exp] or None
      if h['desc'] is None and ctrl is not None and o.get(
          'auto_add_description', True):
        h['desc'] = 'Control' if h['is_ctrl'] else 'Not Control'
      out[r_dims, exp] = h
    return out[r_dims, exp]
  found = {}
  for r in p['rows']:
    is_ctrl = ctrl is not None and r['exp'] in set(ctrl.values())
    if is_ctrl and not show:
      continue
    c = [r['value'], r['ratio'], r['lo'], r['hi']]
    if is_ctrl:
      c[1] = None
    if not show and not o.get('show_metric_value_when_control_hidden'):
      c[0] = None
    head(r['dims'], r['exp'])['cells'][r['metric']] = c
    if p['cv'] is not None and not is_ctrl and not null(r['cv']) and (
        ctrl.get(r['exp']) is not None):
      found.setdefault((r['metric'], ctrl[r['exp']], r['dims']),
                       []).append(r['cv'])
  for (m, c, d), vals in found.items():
    if max(vals) - min(vals) > 1e-5:
      continue
    cells = head(d, c)['cells']
    if m not in cells:
      cells[m] = [min(vals), None, None, None]
    elif null(cells[m][0]):
      cells[m][0] = min(vals)
  return list(out.values())


def in_order(rows, keys, p):
  """The displayed rows are sorted by the keys (a list of (fn, ascending))."""
  for a, b in zip(rows, rows[1:]):
    for fn, asc, *raw in keys:
      x, y = fn(a), fn(b)
      if (null(x) and null(y)) or x == y:
        if raw and raw[0](a) != raw[0](b):
          break  # Values not in the requested order.
        continue
      if null(x) or null(y):
        if null(x):
          return False
        break
      if (x < y) != asc:
        return False
      break
  return True


def sort_keys(p):
  if not p['keys']:
    n = len(p['dims'])
    keys = [(lambda r, i=i: r['dims'][i], True) for i in range(n)]
    if p['ctrl'] is not None:
      keys += [(lambda r: r['ctrl'], True), (lambda r: r['is_ctrl'], False)]
    if p['has_exp']:
      keys.append((lambda r: r['exp'], True))
    return keys
  keys = []
  for k in p['keys']:
    by = k['by']
    if by[0] == 'field':
      i = ('Value', 'Ratio', 'CI_Lower', 'CI_Upper').index(by[1])
      fn = lambda r, i=i, m=by[2]: r['cells'].get(m, [None] * 4)[i]
    elif by[1] == 'exp':
      fn = lambda r: r['exp']
    else:
      fn = lambda r, i=p['dims'].index(by[1]): r['dims'][i]
    if 'order' in k:
      pos = {v: i for i, v in enumerate(k['order'])}
      keys.append((lambda r, fn=fn, pos=pos: pos.get(fn(r), len(pos)),
                   k.get('ascending', True), fn))
      continue
    keys.append((fn, k.get('ascending', True)))
  return keys


def close(a, b, digits):
  return abs(a - b) <= .5000001 * 10.**-int(digits) + 1e-9 * abs(b)


def same_cell(got, want):
  """A read() cell shows the expected() content."""
  if got[0] != want[0] or len(got) != len(want):
    return False
  digits = want[0].split(';')[2].split(',')
  return all(close(g, w, d) for g, w, d in zip(got[1:], want[1:], digits))


def wants(p, n):
  """The columns: (dimension columns, information columns, metrics)."""
  o = p['o']
  present = {m for r in oracle(p) for m in r['cells']}
  metrics = [m for m in o['metric_order'] if m in present] if o.get(
      'metric_order') else sorted(present)
  info = set()
  rows = oracle(p)
  if p['has_exp']:
    info.add(n['expr_id'])
  has_ctrl = p['ctrl'] is not None
  if o.get('display_expr_info') and not o['aggregate_dimensions']:
    if has_ctrl:
      info |= {'Is_Control'}
      if any(r['ctrl'] is not None for r in rows):
        info.add('Control_Id')
    if p['desc'] or (has_ctrl and o.get('auto_add_description', True)):
      info.add(n['description'])
  return list(p['dims']), info, metrics, rows


def check_table(p, df, got, pre, case):
  n = NAMES if p['rename'] else FIXED
  dims, info, metrics, rows = wants(p, n)
  agg = p['o']['aggregate_dimensions']
  formats = dict({'Value': 'absolute', 'Ratio': 'absolute'},
                 **(p['o'].get('metric_formats') or {}))
  flips = p['o'].get('flip_color') or []
  hide = bool(p['o'].get('hide_null_ctrl'))
  cols = list(got.columns)
  lead = cols[:len(cols) - len(metrics)]
  want = ({'Dimensions'} if dims or p['has_exp'] or p['desc'] else set()
          ) if agg else set(dims) | info
  if cols[len(lead):] != metrics or set(lead) != want or len(lead) != len(want):
    raise O.Mismatch('columns %s instead of %s and %s' % (
        cols, sorted(want), metrics), case)
  if list(pre.columns) != cols:
    raise O.Mismatch('columns before formatting %s, after %s' % (
        list(pre.columns), cols), case)
  byhead = {}
  for r in rows:
    if agg:
      t = []
      if r['desc']:
        t.append(str(r['desc']).strip())
      if p['has_exp']:
        t.append(str(r['exp']))
      if dims:
        t.append(' * '.join(str(d) for d in r['dims']))
      key = tuple(t)
    else:
      key = tuple(str(d) for d in r['dims']) + (
          (str(r['exp']),) if p['has_exp'] else ())
    byhead[key] = r
  if len(byhead) != len(rows):
    return 'ambiguous'
  shown = []
  for i in range(len(got)):
    g = got.iloc[i]
    if agg:
      key = tuple(text(g['Dimensions'])) if lead else ()
    else:
      key = tuple(text(g[d])[0] for d in dims) + (
          (text(g[n['expr_id']])[0],) if p['has_exp'] else ())
    if key not in byhead:
      raise O.Mismatch('a row for %s, which is not in the data' % (key,), case)
    r = byhead[key]
    if r in shown:
      raise O.Mismatch('%s is displayed twice' % (key,), case)
    shown.append(r)
    if not agg:
      for c, f in (('Control_Id', 'ctrl'), ('Is_Control', 'is_ctrl'),
                   (n['description'], 'desc')):
        if c in info:
          t = ' '.join(text(g[c]))
          w = r[f]
          if null(w):
            if t not in ('', 'None', 'nan'):
              raise O.Mismatch('%s of %s is %s' % (c, key, t), case)
          elif t not in (str(w).strip(), '%s.0' % w):
            raise O.Mismatch('%s of %s is %s instead of %s' % (
                c, key, t, w), case)
    for m in metrics:
      w = [float('nan') if null(x) else x
           for x in r['cells'].get(m, [None] * 4)]
      a = list(pre.iloc[i][m])
      if any(not (null(x) and null(y)) and x != y for x, y in zip(a, w)):
        raise O.Mismatch('%s of %s is %s instead of %s' % (m, key, a, w), case)
      e = expected(*w, formats['Value'], formats['Ratio'], m in flips, hide)
      c = read(g[m])
      if not same_cell(c, e):
        raise O.Mismatch('%s of %s displays %s instead of %s' % (
            m, key, c, e), case)
  if len(shown) != len(rows):
    raise O.Mismatch('rows of %s are not displayed' % [
        k for k, r in byhead.items() if r not in shown], case)
  if not in_order(shown, sort_keys(p), p):
    raise O.Mismatch('rows are in the order %s' % [
        (r['dims'], r['exp']) for r in shown], case)
  return None


class Screen(object):
  """Captures what display_formatted_df renders."""

  def __init__(self, cid):
    self.cid = cid
    self.pages = []

  def __enter__(self):
    self.saved = self.cid.display, self.cid.HTML
    self.cid.display = self.pages.append
    self.cid.HTML = lambda s: s
    return self

  def __exit__(self, *a):
    self.cid.display, self.cid.HTML = self.saved


def body(page):
  """The cells of the rendered table, row by row."""
  part = page.split('<tbody>')[1].split('</tbody>')[0]
  return [[c.split('</td>')[0].split('>', 1)[1] for c in r.split('<td')[1:]]
          for r in part.split('<tr')[1:]]


def flat(cell):
  return re.sub(r'\s+', ' ', cell).strip()


@O.suite('C19.table', P, TABLE, 400, 4000, what=(
    'tables, colours, orders and options of get_formatted_df and render'),
         chunk=50)
def whole_table(ms, rng, i):
  p = plan(rng)
  cid = ms.operations.confidence_interval_display
  df, kw = table(ms, p, rng)
  case = {'plan': p, 'data': df.to_dict('list'), 'kwargs': repr(kw)}
  if df.empty or not oracle(p):
    return None
  held, opts = df.copy(), copy.deepcopy(kw)
  with Screen(cid) as screen:
    got = cid.get_formatted_df(df, **kw)
    pre = cid.get_formatted_df(df, return_pre_agg_df=True, **kw)
    again = cid.render(df, return_formatted_df=True, **kw)
    cid.render(df, **kw)
  if not df.equals(held) or list(df.columns) != list(held.columns):
    raise O.Mismatch('the data are changed', case)
  if kw != opts:
    raise O.Mismatch('the options are changed', case)
  if not got.equals(again):
    raise O.Mismatch('render differs from get_formatted_df', case)
  if len(screen.pages) != 1 or [
      [flat(c) for c in r] for r in body(screen.pages[0])] != [
          [flat(c) for c in r] for r in got.values.tolist()]:
    raise O.Mismatch('the HTML differs from the formatted table', case)
  tag = check_table(p, df, got, pre, case)
  return tag or '%s%s%s' % ('agg' if p['o']['aggregate_dimensions'] else 'wide',
                            ' sorted' if p['keys'] else '',
                            ' auto' if p['cv'] is not None else '')


# ------------------------------------------------------------- res.display()


def changed(ms, spec):
  """The metric without and with the change, and its melted names."""
  kids = [{'Sum': lambda: ms.Sum('x'), 'Mean': lambda: ms.Mean('x'),
           'Ratio': lambda: ms.Ratio('x', 'y'),
           'Named': lambda: ms.Sum('y', name='total y')}[k]()
          for k in spec['kids']]
  base = kids[0] if len(kids) == 1 and not spec['list'] else ms.MetricList(kids)
  m = base
  if spec['change']:
    cls = getattr(ms, spec['change'])
    conds = spec['conds']
    key = spec['base']
    m = cls(conds if len(conds) > 1 else conds[0],
            tuple(key) if len(conds) > 1 else key[0], base,
            include_base=spec['include'])
  if spec['op'] == 'Jackknife':
    return base, ms.Jackknife('u', m, spec['level'])
  return base, ms.Bootstrap('u' if spec['unit'] else None, m, 12,
                            spec['level'])


def bycell(df, levels):
  """{(metric, *levels): row dict} of a long table."""
  d = df.reset_index()
  out = {}
  for rec in d.to_dict('records'):
    out[(rec['Metric'],) + tuple(rec[c] for c in levels)] = rec
  return out


DISPLAY = ['operations.get_display_fn', 'operations.MetricWithCI.add_display_fn',
           'operations.MetricWithCI.final_compute',
           'operations.MetricWithCI.compute_change_base'] + TABLE


@O.suite('C19.display', P, DISPLAY, 120, 1200, what=(
    'display() of Jackknife and Bootstrap results shows the values, changes '
    'and intervals of the result'), chunk=15)
def shown(ms, rng, i):
  np = ms.np
  spec = {
      'op': rng.choice(['Jackknife', 'Bootstrap']),
      'kids': rng.sample(['Sum', 'Mean', 'Ratio', 'Named'], rng.randint(1, 3)),
      'list': rng.random() < .3,
      'change': rng.choice(['PercentChange', 'AbsoluteChange', None]),
      'conds': rng.choice([['c'], ['c'], ['c', 'd']]),
      'include': rng.random() < .3, 'unit': rng.random() < .7,
      'level': rng.choice([.9, .5]), 'melted': rng.random() < .5,
      'by': rng.choice([[], ['g'], ['g', 'h']]), 'ints': rng.random() < .4}
  arms = [0, 1, 2] if spec['ints'] else ['a', 'b', 'k']
  spec['base'] = [arms[0], 7][:len(spec['conds'])]
  rows = []
  for g in 'xy':
    for h in (1, 2):
      for c in arms:
        for d in (7, 8):
          if rng.random() < .1:
            continue
          for u in range(4):
            rows.append({'g': g, 'h': h, 'c': c, 'd': d, 'u': u,
                         'x': rng.uniform(1, 3), 'y': rng.uniform(1, 5)})
  df = ms.pd.DataFrame(rows)
  if spec['ints'] and rng.random() < .3:
    df.c = df.c + .5
    spec['base'][0] += .5
  base, m = changed(ms, spec)
  np.random.seed(i)
  res = C05.quiet(lambda: m.compute_on(df, spec['by'], melted=spec['melted']))
  if isinstance(res, compare.Raised):
    return None
  o = {}
  names = [k.name for k in (base if isinstance(base, ms.MetricList)
                            else [base])]
  if rng.random() < .5:
    o['metric_order'] = rng.sample(names, len(names))
  if rng.random() < .3:
    o['flip_color'] = rng.sample(names, 1)
  if rng.random() < .3:
    o['metric_formats'] = {'Value': rng.choice(['percent', '{:.1f}']),
                           'Ratio': rng.choice(['pp', '{:.3f}'])}
  if rng.random() < .3:
    o['auto_add_description'] = True
  if spec['change'] and rng.random() < .3:
    o['show_control'] = rng.random() < .5
  if spec['change'] and rng.random() < .3:
    o['show_metric_value_when_control_hidden'] = True
  agg = o['aggregate_dimensions'] = rng.random() < .5
  case = {'spec': spec, 'data': df.to_dict('list'), 'options': o}
  held, keep = res.copy(), copy.deepcopy(o)
  got = res.display(return_formatted_df=True, **o)
  if not held.equals(res) or keep != o:
    raise O.Mismatch('the result or the options are changed', case)
  long_ = res if spec['melted'] else ms.utils.melt(res.copy())
  conds = spec['conds'] if spec['change'] else []
  levels = spec['by'] + conds
  numbers = bycell(long_, levels)
  point = [c for c in long_.columns if m.prefix not in c][0]
  bases = {}
  if spec['change']:
    bases = bycell(base.compute_on(df, levels, melted=True), levels)
  suffix = {'PercentChange': ' Percent Change',
            'AbsoluteChange': ' Absolute Change', None: ''}[spec['change']]
  heads = sorted({k[1:] for k in (bases or numbers)})
  is_ctrl = lambda k: bool(conds) and list(k[-len(conds):]) == spec['base']
  show = o.get('show_control', bool(spec['change']))
  if not show:
    heads = [h for h in heads if not is_ctrl(h)]
  formats = {'Value': 'absolute', 'Ratio': 'percent'
             if spec['change'] == 'PercentChange' else 'absolute'}
  formats.update(o.get('metric_formats', {}))
  order = o.get('metric_order', names)
  if list(got.columns)[-len(order):] != order:
    raise O.Mismatch('metrics %s, expected %s' % (list(got.columns), order),
                     case)
  pages = {}
  for j in range(len(got)):
    r = got.iloc[j]
    if agg:
      key = tuple(text(r['Dimensions'])) if 'Dimensions' in got else ()
    else:
      cols = spec['by'] + ([c for c in got.columns[:-len(order)]
                            if c not in spec['by']] if conds else [])
      key = tuple(text(r[c])[0] for c in cols)
    if key in pages:
      raise O.Mismatch('%s is displayed twice' % (key,), case)
    pages[key] = r
  want = {}
  for h in heads:
    by = [str(v) for v in h[:len(spec['by'])]]
    cond = h[len(spec['by']):]
    arm = [str(cond[0]) if len(cond) == 1 else str(tuple(cond))] if conds else []
    if agg:
      note = ['Control' if is_ctrl(h) else 'Not Control'] if o.get(
          'auto_add_description') and conds else []
      key = tuple(note + arm + ([' * '.join(by)] if by else []))
    else:
      key = tuple(by + arm)
    want[key] = h
  if len(want) != len(heads):
    return 'ambiguous'
  if set(pages) != set(want):
    raise O.Mismatch('rows %s, expected %s' % (
        sorted(pages), sorted(want)), case)
  nan = float('nan')
  for key, h in want.items():
    for n in order:
      rec = numbers.get((n + suffix,) + h)
      b = bases.get((n,) + h)
      value = list(b.values())[-1] if b else nan
      if not show and not o.get('show_metric_value_when_control_hidden'):
        value = nan
      ratio = lo = hi = nan
      if rec and not is_ctrl(h):
        ratio = rec[point]
        lo, hi = rec[m.prefix + ' CI-lower'], rec[m.prefix + ' CI-upper']
      e = expected(value, ratio, lo, hi, formats['Value'], formats['Ratio'],
                   n in o.get('flip_color', []), True)
      c = read(pages[key][n])
      if not same_cell(c, e):
        raise O.Mismatch('%s of %s displays %s instead of %s' % (
            n, key, c, e), case)
  return spec['change'], agg, spec['melted'], spec['op']
