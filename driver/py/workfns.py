"""What the workers are asked to do with a node, and how they are seen doing it."""
import os, time
import copclib as copc

BONUS = 0      # set in every worker by set_up


def set_up(bonus, fail):
    global BONUS
    if fail:
        raise ValueError("init failed")
    BONUS = bonus


def note(log, node):
    k = node.key
    fd = os.open(log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, ("%d %d %d %d\n" % (k.d, k.x, k.y, k.z)).encode())
    os.close(fd)


def trouble(node, fail):
    kind = fail.get((node.key.d, node.key.x, node.key.y, node.key.z))
    if kind == "raise":
        raise ValueError("boom %s" % node.key)
    if kind == "exit":
        os._exit(3)
    return kind


def rows(points):
    return [[p.x, p.y, p.z, p.classification, p.point_source_id] for p in points]


def pause(node, slow):
    if slow:
        time.sleep((node.key.x * 7 + node.key.y * 3 + node.key.d) % slow / 1000)


def kept(points, classes, shift):
    out = []
    for p in points:
        if not classes or p.classification in classes:
            p.x, p.y, p.z = p.x + shift[0], p.y + shift[1], p.z + shift[2]
            out.append(p)
    return out


def read(points, node, reader, log, classes, shift, fail, slow=0, sparse=False):
    note(log, node)
    pause(node, slow)
    k = trouble(node, fail)
    if k == "wrong":
        return [1]
    if k == "odd":
        return dict(rows=lambda: 0)
    assert reader.path
    out = rows(kept(points, classes, shift))
    if sparse and not out:
        return {}
    return dict(rows=out, count=len(points), who=node.key.d)


def transform(points, node, writer_header, reader, log, classes, shift, fail, form, slow=0, sparse=False):
    note(log, node)
    pause(node, slow)
    k = trouble(node, fail)
    ps = kept(points, classes, [s + BONUS for s in shift])
    if len(ps) == len(points) and form != "new":
        out = points
    else:
        out = copc.Points(writer_header)
        for p in ps:
            out.AddPoint(p)
    if k == "wrong":
        return (out, [1])
    if k == "odd":
        return (out, dict(), 3)
    if form == "points":
        return out
    return out, {} if sparse and not ps else dict(rows=rows(out), who=node.key.d)
