/* NumPy data allocator that puts every array directly in front of an inaccessible page and keeps freed
   arrays inaccessible for a while: a read or write behind an array, or into a freed one, is a segmentation
   fault whichever code does it (also uninstrumented BLAS/LAPACK).  The bytes in front of an array are a
   canary that is checked when it is freed.  Fresh memory is filled with 0xFF. */
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <Python.h>
#include <numpy/arrayobject.h>
#include <pthread.h>
#include <string.h>
#include <sys/mman.h>

#define PAGE 4096UL
#define QUARANTINE 512
#define CANARY 0xA5

static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static struct { char *base; size_t len; } q[QUARANTINE];
static size_t qpos;
static unsigned long n_alloc, n_free, n_underrun;

typedef struct { size_t size; char *base; size_t len; } head_t; /* kept at the start of the mapping */

static void *fence_malloc(void *ctx, size_t size)
{
    if (size == 0)
        size = 1;
    size_t body = (size + sizeof(head_t) + 64 + PAGE - 1) / PAGE * PAGE;
    char *base = mmap(NULL, body + PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED)
        return NULL;
    mprotect(base + body, PAGE, PROT_NONE);
    char *p = base + body - size;
    head_t *h = (head_t *)base;
    h->size = size; h->base = base; h->len = body + PAGE;
    memset(base + sizeof(head_t), CANARY, p - base - sizeof(head_t));
    memset(p, 0xFF, size);
    __sync_fetch_and_add(&n_alloc, 1);
    return p;
}

static void *fence_calloc(void *ctx, size_t n, size_t s)
{
    size_t size;
    if (__builtin_mul_overflow(n, s, &size))
        return NULL;
    char *p = fence_malloc(ctx, size);
    if (p)
        memset(p, 0, size);
    return p;
}

static head_t *head(void *ptr, size_t size)
{
    if (size == 0)
        size = 1;
    size_t body = (size + sizeof(head_t) + 64 + PAGE - 1) / PAGE * PAGE;
    return (head_t *)((char *)ptr + size - body);
}

static void fence_free(void *ctx, void *ptr, size_t size)
{
    if (!ptr)
        return;
    head_t *h = head(ptr, size);
    char *base = h->base;
    size_t len = h->len;
    int bad = base != (char *)h || h->size != (size ? size : 1);
    if (!bad)
        for (char *c = base + sizeof(head_t); c < (char *)ptr; c++)
            if (*(unsigned char *)c != CANARY) { bad = 1; break; }
    if (bad)
        __sync_fetch_and_add(&n_underrun, 1);
    base = (char *)h;
    if (base == NULL) return;
    if (bad) return; /* leave it alone */
    mprotect(base, len, PROT_NONE);
    __sync_fetch_and_add(&n_free, 1);
    pthread_mutex_lock(&lock);
    char *ob = q[qpos].base; size_t ol = q[qpos].len;
    q[qpos].base = base; q[qpos].len = len;
    qpos = (qpos + 1) % QUARANTINE;
    pthread_mutex_unlock(&lock);
    if (ob)
        munmap(ob, ol);
}

static void *fence_realloc(void *ctx, void *ptr, size_t size)
{
    void *n = fence_malloc(ctx, size);
    if (n && ptr) {
        /* NumPy passes no old size: the header is found by going back page by page */
        size_t a = (size_t)ptr / PAGE * PAGE;
        head_t *h = NULL;
        for (char *c = (char *)a; ; c -= PAGE) {
            h = (head_t *)c;
            if (h->base == c && (char *)ptr == c + h->len - PAGE - h->size)
                break;
        }
        memcpy(n, ptr, h->size < size ? h->size : size);
        fence_free(ctx, ptr, h->size);
    }
    return n;
}

static PyDataMem_Handler handler = {
    "vf_fence", 1, {NULL, fence_malloc, fence_calloc, fence_realloc, fence_free}};

static PyObject *capsule;

static PyObject *py_on(PyObject *self, PyObject *args)
{
    PyObject *old = PyDataMem_SetHandler(capsule);
    if (!old)
        return NULL;
    return old; /* to be given back to off() */
}

static PyObject *py_off(PyObject *self, PyObject *old)
{
    PyObject *o = PyDataMem_SetHandler(old);
    if (!o)
        return NULL;
    Py_DECREF(o);
    Py_RETURN_NONE;
}

static PyObject *py_stats(PyObject *self, PyObject *args)
{
    return Py_BuildValue("kkk", n_alloc, n_free, n_underrun);
}

/* self test: touches the byte behind / in front of an array through a plain pointer */
static PyObject *py_poke(PyObject *self, PyObject *args)
{
    PyObject *a; long off;
    if (!PyArg_ParseTuple(args, "Ol", &a, &off))
        return NULL;
    volatile char *p = (volatile char *)PyArray_DATA((PyArrayObject *)a);
    p[off] = (char)(p[off] + 1);
    Py_RETURN_NONE;
}

static PyMethodDef methods[] = {
    {"on", py_on, METH_NOARGS, "switch the allocator on for this thread; returns the previous one"},
    {"off", py_off, METH_O, "restore an allocator"},
    {"stats", py_stats, METH_NOARGS, "(allocations, frees, damaged arrays)"},
    {"poke", py_poke, METH_VARARGS, "modify the byte at an offset"},
    {NULL, NULL, 0, NULL}};

static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "vf_fence", NULL, -1, methods};

PyMODINIT_FUNC PyInit_vf_fence(void)
{
    import_array();
    capsule = PyCapsule_New(&handler, "mem_handler", NULL);
    return PyModule_Create(&mod);
}
