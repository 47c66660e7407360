"""C27: the assembly tree widget mirrors its assembly, and edits reach the part edited."""
from vt import stubs
from vt.common import Sub, bad

ID = 'C27'
RULE = ('Random assemblies (nested up to 4 deep, empty parts included, some parts tagged with captions beforehand) are shown in an AssemblyTree on '
        'stand-in Qt classes, then histories of 1-8 operations: rename an item, set a tag, show the same assembly again, show it after parts were '
        'added, show another one and return. After each the whole item tree and all caption tags are compared with a model. Non-trivial: '
        'at least one rename and one renewed display of an assembly with two levels.')
ASSUMPTIONS = ['PyQt4 is not installed: stand-ins for the tree widget, its items and its change signal', 'a part that stands in two places '
               'of the assembly is outside the domain']


class Part(object):
    """kind: asm, obj or surf. caption: the tag, None before it was first shown."""
    def __init__(self, kind, real):
        self.kind, self.real, self.caption, self.subs, self.objs = kind, real, None, [], []


NAMES = ['Dish', 'x', '', 'Object 0', 'Assembly 0', 'Homogenizer', 'Surface 1', 'edited', ' spaced  out ', 'two\nlines', 'DISH', u'\u05de\u05e8\u05d0\u05d4']


def new_surf(d):
    from tracer.surface import Surface
    from tracer.flat_surface import RectPlateGM
    from tracer.optics_callables import perfect_mirror
    return Part('surf', Surface(RectPlateGM(1., 1.), perfect_mirror))


def new_obj(d):
    from tracer.object import AssembledObject
    p = Part('obj', AssembledObject())
    many = d.bool(.04)
    while d.more(len(p.objs), 13 if many else 1.5, 0, 25 if many else 4):
        s = new_surf(d)
        p.real.add_surface(s.real)
        p.objs.append(s)
    return p


def new_asm(d, depth=0):
    from tracer.assembly import Assembly
    p = Part('asm', Assembly())
    many = d.int(1, 2) if d.bool(.06) else 0
    while d.more(len(p.objs), 13 if many == 1 else 1.5, 0, 25 if many == 1 else 4):
        o = new_obj(d)
        p.real.add_object(o.real)
        p.objs.append(o)
    while depth < 3 and d.more(len(p.subs), 13 if many == 2 and not depth else .8, 0, 14 if many == 2 and not depth else 3):
        s = new_asm(d, depth + 1)
        p.real.add_assembly(s.real)
        p.subs.append(s)
    return p


def everything(p):
    out = [p]
    for x in p.subs + p.objs:
        out += everything(x)
    return out


def shown(p):
    """The model of set_assembly: default captions are given out."""
    for k, x in enumerate(p.subs):
        if x.caption is None:
            x.caption = 'Assembly %d' % k
        shown(x)
    for k, x in enumerate(p.objs):
        if x.caption is None:
            x.caption = ('Surface %d' if x.kind == 'surf' else 'Object %d') % k
        shown(x)


def rows(item):
    return [item.child(i) for i in range(item.childCount())]


def judge_items(item, p, items, top=False):
    name = p.caption if not top or p.caption is not None else 'Top assembly'
    if item.text(0) != name:
        bad('an item of a %s is captioned %r instead of %r', p.kind, item.text(0), name)
    if not item.flags() & 2:
        bad('the item %r cannot be edited', item.text(0))
    items.append((item, p))
    if p.kind == 'surf':
        if item.childCount():
            bad('the item of a surface has %d children', item.childCount())
        return
    if p.kind == 'obj':
        groups = [(None, p.objs, rows(item))]
    else:
        want = (['Subassemblies'] if p.subs else []) + (['Optical objects'] if p.objs else [])
        got = [x.text(0) for x in rows(item)]
        if got != want:
            bad('the categories under %r are %r instead of %r', name, got, want)
        groups = [(n, p.subs if n == 'Subassemblies' else p.objs, rows(x)) for n, x in zip(want, rows(item))]
    for n, parts, its in groups:
        if len(parts) != len(its):
            bad('%d items under %r for %d parts', len(its), n or name, len(parts))
        for i, x in zip(its, parts):
            judge_items(i, x, items)


def judge(tree, top, all_tops):
    if tree.get_assembly() is not top.real:
        bad('the tree reports another assembly than the one it was given')
    if tree.topLevelItemCount() != 1:
        bad('%d top level items', tree.topLevelItemCount())
    items = []
    judge_items(tree.topLevelItem(0), top, items, True)
    for t in all_tops:
        for x in everything(t):
            c = tree.get_tag(x.real, 'caption')
            if c != x.caption:
                bad('the caption tag of a %s is %r instead of %r', x.kind, c, x.caption)
    return items


def case(d):
    stubs.install_qt()
    from tracer.qt.assembly_tree import AssemblyTree
    tops = [new_asm(d)]
    cur = tops[0]
    tree = AssemblyTree()

    def tag(p, name):
        if d.bool():
            tree.set_tag(p.real, 'caption', name)
        elif d.bool() and not hasattr(p.real, '_tree_tags'):
            p.real._tree_tags = {'caption': name}     # the documented way of tagging a virgin assembly
        else:
            tree.set_tag(p.real, 'caption', name)
        p.caption = name
    for p in everything(cur):
        if d.bool(.2):
            tag(p, d.choice(NAMES))
    tree.set_assembly(cur.real)
    shown(cur)
    items = judge(tree, cur, tops)
    log, kinds, ops = [], set(), 0
    while d.more(ops, 4, 1, 8):
        ops += 1
        k = d.weighted([(4, 'rename'), (2, 'again'), (2, 'add'), (1, 'tag'), (1, 'other'), (1, 'plain tag')])
        kinds.add(k)
        if k == 'rename':
            item, p = d.choice(items)
            name = d.choice(NAMES)
            log.append([k, p.kind, name])
            d.note('history', log)
            item.setText(0, name)
            p.caption = name
        else:
            log.append([k])
            d.note('history', log)
            if k == 'add':
                o = d.choice([x for x in everything(cur) if x.kind != 'surf'])
                if o.kind == 'obj':
                    x = new_surf(d)
                    o.real.add_surface(x.real)
                    o.objs.append(x)
                elif d.bool():
                    x = new_obj(d)
                    o.real.add_object(x.real)
                    o.objs.append(x)
                else:
                    x = new_asm(d, 3)
                    o.real.add_assembly(x.real)
                    o.subs.append(x)
            elif k == 'tag':
                tag(d.choice(everything(cur)), d.choice(NAMES))
            elif k == 'plain tag':
                p = d.choice(everything(cur))
                tree.set_tag(p.real, 'colour', 'red')
                if tree.get_tag(p.real, 'colour') != 'red':
                    bad('a tag that was set is not there')
            elif k == 'other':
                if len(tops) < 3 and d.bool():
                    tops.append(new_asm(d))
                cur = d.choice(tops)
            tree.set_assembly(cur.real)
            shown(cur)
        items = judge(tree, cur, tops)
    d.event('items', len(items))
    d.nontrivial('rename' in kinds and len(kinds) > 1 and len(items) > 3)


SUBS = [Sub('histories', case, 8000, 40000, 'histories of the widget')]
