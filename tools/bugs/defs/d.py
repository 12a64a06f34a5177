CN = "trackeddy/src/cntr.c"
H = "from ocean import *\n"
NOMEM = """
import gc
import subprocess
import _testcapi
from trackeddy import _cntr


def survives(body):
    # in a process of its own, since it may crash
    r = subprocess.run([sys.executable, "-W", "ignore", __file__, "child"], capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=os.getcwd()))
    if r.returncode:
        fail("%s (exit status %d)" % ((r.stdout.strip().splitlines() or ["crashed"])[-1], r.returncode))
    done()


x, y = np.meshgrid(np.arange(30.), np.arange(30.))
z = np.sin(x) * np.cos(y)


def faults(operation, upto=60):
    # every allocation of the operation fails in turn, several times
    for n in range(1, upto):
        hit, grown = 0, None
        for rep in range(12):
            ok = True
            if rep == 2:
                gc.collect()
                grown = sys.getallocatedblocks()
            _testcapi.set_nomemory(n, n + 1)
            try:
                operation()
            except MemoryError:
                ok = False
            finally:
                _testcapi.remove_mem_hooks()
            hit += not ok
        gc.collect()
        grown = sys.getallocatedblocks() - grown
        check(grown < 9, "allocation %d failing leaves %d blocks after 10 times" % (n, grown))
"""
BUGS = [
 dict(id="C21-partial-list", property="C21",
  edits=[(CN, """    Py_XDECREF(kv);
    Py_XDECREF(all_contours);
    return NULL;
}

#if 0""", """    Py_XDECREF(kv);
    return NULL;
}

#if 0""")],
  needs="a failed allocation of a result array after others were made",
  breaks="The arrays made before the failed allocation are never released.",
  demo=H + NOMEM + """
if sys.argv[1:] != ["child"]:
    survives(1)
c = _cntr.Cntr(x, y, z)
faults(lambda: c.trace(.3))
"""),
 dict(id="C21-codes-unchecked", property="C21",
  edits=[(CN, """        kv = (PyArrayObject *) PyArray_SimpleNew(1, kdims, NPY_UBYTE);
        if (kv == NULL) goto error;

        n = reorder(""", """        kv = (PyArrayObject *) PyArray_SimpleNew(1, kdims, NPY_UBYTE);
        n = reorder(""")],
  needs="a failed allocation of an array of codes",
  breaks="The process crashes when the array of codes can't be allocated.",
  demo=H + NOMEM + """
if sys.argv[1:] != ["child"]:
    survives(1)
c = _cntr.Cntr(x, y, z)
faults(lambda: c.trace(.3))
"""),
 dict(id="C21-early-release", property="C21",
  edits=[(CN, """    error:
    PyMem_Free(xp0);
    PyMem_Free(yp0);
    PyMem_Free(kp0);
    PyMem_Free(nseg0);
    site->xcp = NULL;
""", """    error:
    PyMem_Free(xp0);
    PyMem_Free(yp0);
    PyMem_Free(kp0);
    site->xcp = NULL;
""")],
  needs="a failed allocation of working memory during a trace",
  breaks="The list of segment lengths is leaked when one of the other working arrays can't be allocated.",
  demo=H + NOMEM + """
if sys.argv[1:] != ["child"]:
    survives(1)
c = _cntr.Cntr(x, y, z)
faults(lambda: c.trace(.3))
"""),
 dict(id="C21-arrays-kept", property="C21",
  edits=[(CN, """        PyErr_SetString(PyExc_MemoryError,
            "Memory allocation failure in cntr_init");
        goto error;
""", """        PyErr_SetString(PyExc_MemoryError,
            "Memory allocation failure in cntr_init");
        return -1;
""")],
  needs="a failed allocation of working memory when a contour object is made",
  breaks="The arrays of a contour object that could not be made are never released.",
  demo=H + NOMEM + """
if sys.argv[1:] != ["child"]:
    survives(1)
def op():
    _cntr.Cntr(x, y, z)
refs = [sys.getrefcount(v) for v in (x, y, z)]
faults(op, 20)
now = [sys.getrefcount(v) for v in (x, y, z)]
check(now == refs, "references %s, before %s" % (now, refs))
"""),
 dict(id="C22-saddles-kept", property="C22",
  edits=[(CN, """    else
        for (i = 0; i < ijmax; ++i) site->saddle[i] = 0;
""", ""), (CN, """    site->saddle = (Saddle*) PyMem_Malloc(sizeof(Saddle) * ijmax);
""", """    site->saddle = (Saddle*) PyMem_Calloc(ijmax, sizeof(Saddle));
""")],
  needs="a field with a saddle, and two levels on either side of the saddle's centre traced on the same object",
  breaks="The direction contours take through a saddle is remembered from the previous level.",
  demo=H + """
from trackeddy import _cntr
r = np.random.RandomState(3)
x, y = np.meshgrid(np.arange(20.), np.arange(20.))
for k in range(20):
    z = (np.indices(x.shape).sum(0) % 2 * 2 - 1) * r.choice([1., .4], x.shape)
    c = _cntr.Cntr(x, y, z)
    for v in (-.3, .3, .1, -.1):
        got, want = c.trace(v), _cntr.Cntr(x, y, z).trace(v)
        check(len(got) == len(want) and all(np.array_equal(a, b) for a, b in zip(got, want)), "level %g differs on a used object" % v)
done()
"""),
 dict(id="C22-same-level", property="C22",
  edits=[(CN, """    site->n = site->count = 0;
    data_init (site, nchunk);
""", """    site->n = site->count = 0;
    /* marks depend on the levels only, don't search the data again */
    if (site->marked_nlevels != nlevels || site->marked_nchunk != nchunk
        || site->marked[0] != site->zlevel[0] || site->marked[1] != site->zlevel[1])
        data_init (site, nchunk);
    else
        site->count = -1;
    site->marked_nlevels = nlevels;
    site->marked_nchunk = nchunk;
    site->marked[0] = site->zlevel[0];
    site->marked[1] = site->zlevel[1];
"""), (CN, """    Saddle *saddle;             /* saddle zone information for the mesh */
""", """    Saddle *saddle;             /* saddle zone information for the mesh */
    double marked[2];           /* levels the data are marked for */
    int marked_nlevels;
    long marked_nchunk;
"""), (CN, """    site->x = NULL;
    site->y = NULL;
    site->z = NULL;
    return site;
""", """    site->x = NULL;
    site->y = NULL;
    site->z = NULL;
    site->marked_nlevels = 0;
    return site;
""")],
  needs="tracing the same level twice in a row on the same object",
  breaks="Repeating a trace gives no or other contours, since the marks were used up.",
  demo=H + """
from trackeddy import _cntr
x, y = np.meshgrid(np.arange(20.), np.arange(20.))
z = np.sin(x) * np.cos(y)
c = _cntr.Cntr(x, y, z)
a, b = c.trace(.3), c.trace(.3)
check(len(a) == len(b) and all(np.array_equal(p, q) for p, q in zip(a, b)), "%d contours, then %d" % (len(a) // 2, len(b) // 2))
done()
"""),
 dict(id="C22-borrowed-arrays", property="C22",
  edits=[(CN, """    self->xpa = xpa;
    self->ypa = ypa;
    self->zpa = zpa;
    self->mpa = mpa;
    return 0;
""", """    self->xpa = xpa;
    self->ypa = ypa;
    self->zpa = zpa;
    /* the mask was translated to zones in cntr_init */
    Py_XDECREF(zpa == (PyArrayObject *) zarg ? mpa : NULL);
    if (zpa != (PyArrayObject *) zarg)
    {
        /* a converted copy of z was only needed to find the zones */
        Py_DECREF(zpa);
        self->zpa = NULL;
    }
    return 0;
""")],
  needs="a field that is not contiguous or not of doubles, so that it is converted",
  breaks="The converted copy of the field is released while the contour object still uses it.",
  demo=H + """
from trackeddy import _cntr
x, y = np.meshgrid(np.arange(40.), np.arange(40.))
z = np.sin(x) * np.cos(y)
z32 = z.astype("float32")
c = _cntr.Cntr(x, y, z32)
want = _cntr.Cntr(x, y, z32.astype(float)).trace(.3)
junk = [np.full((40, 40), 7.) for k in range(20)]
got = c.trace(.3)
check(len(got) == len(want) and all(np.array_equal(a, b) for a, b in zip(got, want)), "%d contours, expected %d" % (len(got) // 2, len(want) // 2))
done()
"""),
 dict(id="C22-row-start", property="C22",
  edits=[(CN, """            if (ij < imax)
                data[ij + 1] = 0;
""", """            if (ij < imax && !site->count)
                data[ij + 1] = 0;
"""), (CN, """    site->n = site->count = 0;
    data_init (site, nchunk);
""", """    site->n = 0;
    data_init (site, nchunk);
""")],
  needs="two levels traced on the same object, with contours in the first row left marked by the first",
  breaks="The first row keeps the marks of the previous trace when that ended with starts left over.",
  demo=H + """
from trackeddy import _cntr
r = np.random.RandomState(3)
x, y = np.meshgrid(np.arange(9.), np.arange(9.))
for k in range(200):
    z = r.standard_normal(x.shape)
    c = _cntr.Cntr(x, y, z)
    for v, w in ((-.3, None), (.1, .8), (.3, None), (-.1, .4), (.1, None)):
        a = (v,) if w is None else (v, w)
        got, want = c.trace(*a), _cntr.Cntr(x, y, z).trace(*a)
        check(len(got) == len(want) and all(np.array_equal(a, b) for a, b in zip(got, want)), "level %g differs on a used object" % v)
done()
"""),
]
