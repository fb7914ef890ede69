"""Writing interface files and converting them with freesif."""
import os

import tables as tb

import records as R
from core import Violation


def write(path, blocks, form):
    with open(path, 'wb') as f:
        f.write(R.file_bytes(blocks, form))
    return path


def convert(path, h5, **kw):
    import freesif as fs
    return fs.sif2hdf5(path, h5, **kw)


def snapshot(h5):
    with tb.open_file(h5, 'r') as f:
        return R.snapshot(f)


def check_group(h5, group, blocks, only=None):
    with tb.open_file(h5, 'r') as f:
        names = [g._v_pathname for g in f.walk_groups('/')]
        if group not in names:
            raise Violation('no group %s, only %s' % (group, names))
        R.compare_group(f.get_node(group), blocks, only)


def record_order(blocks, only=None):
    """Names of the stored record types in order of first occurrence."""
    out = []
    for b in blocks:
        if b['rec'] not in R.STORED:
            continue
        if only is not None and b['rec'] not in only:
            continue
        for r in b['rows']:
            h = r['h'] if isinstance(r, dict) else r
            if h[0] >= 0 and b['rec'] not in out:
                out.append(b['rec'])
    return out


def runs(blocks):
    """Number of separate runs per record type."""
    out, last = {}, None
    for b in blocks:
        if b['rec'] != last:
            out[b['rec']] = out.get(b['rec'], 0) + 1
        last = b['rec']
    return out


def nvalues(blocks):
    n = 0
    for b in blocks:
        for r in b['rows']:
            n += 4 + len(r['s']) if isinstance(r, dict) else len(r)
    return n


def labels(blocks, form=None):
    """Labels describing what a record sequence exercises."""
    out = set()
    for b in blocks:
        out.add('rec:' + b['rec'])
    if any(n > 1 for k, n in runs(blocks).items() if k in R.STORED):
        out.add('several runs of a type')
    if form is not None:
        if form['kind'] == 'F':
            out.add('formatted/%s%s' % (form['pad'],
                                        '/crlf' if form['eol'] != '\n'
                                        else ''))
        else:
            out.add('unformatted')
            if form['chunks'] != [32]:
                out.add('small pieces')
    return out


def nontrivial(blocks):
    """At least two record types or two runs, with rows that have more than
    the four header values."""
    r = runs(blocks)
    long_ = any(isinstance(x, dict) or len(x) > 4
                for b in blocks for x in b['rows'])
    return long_ and (sum(r.values()) >= 3)
