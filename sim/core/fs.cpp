// Simulated disk: plain files through stdio and POSIX calls, and the HDF5 C API over structured files.
#include "core.hpp"
#include "../include/hdf5.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstring>

namespace sim {

std::map<std::string, std::shared_ptr<Node>> disk;

std::string norm(std::string const& p)
{
    std::vector<std::string> parts;
    std::string t;
    auto push = [&] {
        if (t == "..") { if (!parts.empty()) parts.pop_back(); }
        else if (!t.empty() && t != ".") parts.push_back(t);
        t.clear();
    };
    for (char c : p) {
        if (c == '/') push(); else t.push_back(c);
    }
    push();
    std::string o;
    for (auto const& s : parts) o += "/" + s;
    return o.empty() ? "/" : o;
}
// inside a simulated process, the whole name space below /sim and every relative path is simulated
static std::string absolute(char const* p)
{
    std::string s = p;
    if (s.empty() || s[0] != '/') s = "/sim/cwd/" + s;
    return norm(s);
}
bool is_virtual(char const* p)
{
    if (W.cur < 0 || !p) return false;
    if (p[0] != '/') return true;
    return norm(p).rfind("/sim", 0) == 0;
}
std::shared_ptr<Node> find(std::string const& p)
{
    auto it = disk.find(p);
    return it == disk.end() ? nullptr : it->second;
}
bool parent_exists(std::string const& p)
{
    size_t const s = p.find_last_of('/');
    std::string const d = s == 0 ? "/" : p.substr(0, s);
    if (d == "/" || d == "/sim" || d == "/sim/cwd") return true;
    auto n = find(d);
    return n && n->dir;
}
void journal(std::string const& what, std::string const& path) { W.notes.push_back("@" + std::to_string(W.ev) + " r" + std::to_string(W.cur) + " " + what + " " + path); }

// ------------------------------------------------------------------ disk image
static void wr(std::string& o, uint64_t v) { o.append(reinterpret_cast<char const*>(&v), 8); }
static void wr(std::string& o, std::string const& s)
{
    wr(o, s.size());
    o += s;
}
struct Rd
{
    std::string const& b;
    size_t o = 0;
    uint64_t n()
    {
        uint64_t v;
        std::memcpy(&v, b.data() + o, 8);
        o += 8;
        return v;
    }
    std::string s()
    {
        uint64_t const l = n();
        std::string r = b.substr(o, l);
        o += l;
        return r;
    }
};
static void wr_h5(std::string& o, H5File const& f)
{
    wr(o, f.dsets.size());
    for (auto const& [name, d] : f.dsets) {
        wr(o, name);
        wr(o, d.type);
        wr(o, d.dims.size());
        for (uint64_t x : d.dims) wr(o, x);
        wr(o, d.data);
    }
    wr(o, f.attrs.size());
    for (auto const& [name, v] : f.attrs) {
        wr(o, name);
        wr(o, v);
    }
}
void disk_save(std::string const& file, bool crashed)
{
    std::string o;
    wr(o, disk.size());
    for (auto& [path, n] : disk) {
        // a job that ends while an HDF5 file is open for writing leaves it in one of several states
        if (n->h5 && n->inflight) {
            uint64_t const how = decide(4, 1.0);
            (void)crashed;
            if (how == 0 || !n->file) {
                n->torn = true;
                n->file = n->file ? n->file : std::make_shared<H5File>();
            } else if (how >= 2) {
                // part of the new datasets reached the disk completely
                for (auto& [name, d] : n->inflight->dsets) {
                    if (n->file->dsets.count(name)) continue;
                    bool const full = d.writer.find('\0') == std::string::npos;
                    if (full && decide(2, 1.0) == 1) n->file->dsets[name] = d;
                }
            }
            n->inflight.reset();
        }
        wr(o, path);
        wr(o, static_cast<uint64_t>(n->dir ? 1 : n->h5 ? (n->torn ? 3 : 2) : 0));
        if (n->h5) wr_h5(o, n->file ? *n->file : H5File());
        else wr(o, n->bytes);
    }
    int fd = static_cast<int>(syscall(SYS_open, file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644));
    size_t off = 0;
    while (off < o.size()) {
        ssize_t k = syscall(SYS_write, fd, o.data() + off, o.size() - off);
        if (k <= 0) break;
        off += static_cast<size_t>(k);
    }
    syscall(SYS_close, fd);
}
void disk_load(std::string const& file)
{
    int fd = static_cast<int>(syscall(SYS_open, file.c_str(), O_RDONLY, 0));
    std::string b;
    char buf[65536];
    ssize_t k;
    while ((k = syscall(SYS_read, fd, buf, sizeof buf)) > 0) b.append(buf, static_cast<size_t>(k));
    syscall(SYS_close, fd);
    Rd r {b};
    uint64_t const n = r.n();
    for (uint64_t i = 0; i < n; ++i) {
        std::string const path = r.s();
        auto nd = std::make_shared<Node>();
        uint64_t const t = r.n();
        nd->dir = t == 1;
        nd->h5 = t >= 2;
        nd->torn = t == 3;
        if (nd->h5) {
            nd->file = std::make_shared<H5File>();
            uint64_t const m = r.n();
            for (uint64_t j = 0; j < m; ++j) {
                std::string const name = r.s();
                H5Dataset d;
                d.type = r.s();
                uint64_t const q = r.n();
                for (uint64_t x = 0; x < q; ++x) d.dims.push_back(r.n());
                d.data = r.s();
                nd->file->dsets[name] = d;
            }
            uint64_t const a = r.n();
            for (uint64_t j = 0; j < a; ++j) {
                std::string const name = r.s();
                nd->file->attrs[name] = r.s();
            }
        } else {
            nd->bytes = r.s();
        }
        disk[path] = nd;
    }
}

// ------------------------------------------------------------------ plain files
struct Open
{
    std::shared_ptr<Node> node;
    std::string path;
    uint64_t pos = 0;
    bool rd = false, wr = false, app = false;
};
static std::map<int, Open> fds;
static std::map<FILE*, int> files;
static int next_fd = 100000;

static int v_open(char const* p, bool rd, bool wr_, bool create, bool trunc, bool app, bool excl, char const* site)
{
    seam(site);
    ++W.io_ops;
    std::string const path = absolute(p);
    if (Fault* f = fault_at(site)) {
        errno = f->action == "EACCES" ? EACCES : f->action == "EMFILE" ? EMFILE : f->action == "ENOSPC" ? ENOSPC : EIO;
        return -1;
    }
    auto n = find(path);
    if (n && n->dir) { errno = EISDIR; return -1; }
    if (n && excl) { errno = EEXIST; return -1; }
    if (!n) {
        if (!create) { errno = ENOENT; return -1; }
        if (!parent_exists(path)) { errno = ENOENT; return -1; }
        n = std::make_shared<Node>();
        disk[path] = n;
    }
    if (trunc && wr_) {
        n->bytes.clear();
        n->h5 = false;
        journal("truncate", path);
    }
    Open o;
    o.node = n;
    o.path = path;
    o.rd = rd;
    o.wr = wr_;
    o.app = app;
    int const fd = next_fd++;
    fds[fd] = o;
    return fd;
}
static ssize_t v_read(int fd, void* b, size_t n)
{
    seam("read");
    ++W.io_ops;
    Open& o = fds.at(fd);
    if (!o.rd) { errno = EBADF; return -1; }
    size_t lim = n;
    if (Fault* f = fault_at("read")) {
        if (f->action == "short") lim = std::max<size_t>(1, static_cast<size_t>(f->param));
        else {
            errno = EIO;
            return -1;
        }
    }
    std::string const& s = o.node->bytes;
    if (o.pos >= s.size()) return 0;
    size_t k = std::min(lim, s.size() - o.pos);
    double const p_short = W.param("p_short_read", 0);
    if (p_short > 0 && k > 1) {
        uint64_t const v = decide(k, p_short); // 0: complete
        if (v) k = static_cast<size_t>(v);
    }
    std::memcpy(b, s.data() + o.pos, k);
    o.pos += k;
    return static_cast<ssize_t>(k);
}
static ssize_t v_write(int fd, void const* b, size_t n)
{
    seam("write");
    ++W.io_ops;
    Open& o = fds.at(fd);
    if (!o.wr) { errno = EBADF; return -1; }
    size_t k = n;
    if (Fault* f = fault_at("write")) {
        if (f->action == "short") k = std::min<size_t>(k, std::max<size_t>(1, static_cast<size_t>(f->param)));
        else if (f->action == "EINTR") { errno = EINTR; return -1; }
        else { errno = f->action == "ENOSPC" ? ENOSPC : EIO; return -1; }
    }
    double const p_short = W.param("p_short_write", 0);
    if (p_short > 0 && k > 1) {
        uint64_t const v = decide(k, p_short);
        if (v) k = static_cast<size_t>(v);
    }
    std::string& s = o.node->bytes;
    if (o.app) o.pos = s.size();
    if (s.size() < o.pos + k) s.resize(o.pos + k);
    std::memcpy(s.data() + o.pos, b, k);
    o.pos += k;
    journal("write", o.path);
    return static_cast<ssize_t>(k);
}
static int64_t v_seek(int fd, int64_t off, int whence)
{
    Open& o = fds.at(fd);
    int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? static_cast<int64_t>(o.pos) : static_cast<int64_t>(o.node->bytes.size());
    if (base + off < 0) { errno = EINVAL; return -1; }
    o.pos = static_cast<uint64_t>(base + off);
    return static_cast<int64_t>(o.pos);
}
static int v_close(int fd)
{
    seam("close");
    bool failed = false;
    if (fds.at(fd).wr) {
        if (Fault* f = fault_at("close")) {
            failed = true;
            errno = f->action == "ENOSPC" ? ENOSPC : EIO;
        }
    }
    fds.erase(fd);
    return failed ? -1 : 0;
}

static ssize_t ck_read(void* c, char* b, size_t n) { return v_read(static_cast<int>(reinterpret_cast<intptr_t>(c)), b, n); }
static ssize_t ck_write(void* c, char const* b, size_t n)
{
    ssize_t const k = v_write(static_cast<int>(reinterpret_cast<intptr_t>(c)), b, n);
    return k < 0 ? 0 : k;
}
static int ck_seek(void* c, off64_t* off, int wh)
{
    int64_t const r = v_seek(static_cast<int>(reinterpret_cast<intptr_t>(c)), *off, wh);
    if (r < 0) return -1;
    *off = r;
    return 0;
}
static int ck_close(void* c) { return v_close(static_cast<int>(reinterpret_cast<intptr_t>(c))); }

static FILE* v_fopen(char const* p, char const* mode)
{
    bool const plus = std::strchr(mode, '+') != nullptr;
    bool const r = mode[0] == 'r', w = mode[0] == 'w', a = mode[0] == 'a';
    int const fd = v_open(p, r || plus, w || a || plus, w || a, w, a, std::strchr(mode, 'x') != nullptr, "fopen");
    if (fd < 0) return nullptr;
    cookie_io_functions_t io {ck_read, ck_write, ck_seek, ck_close};
    FILE* f = fopencookie(reinterpret_cast<void*>(static_cast<intptr_t>(fd)), mode, io);
    files[f] = fd;
    return f;
}

} // namespace sim

using namespace sim;
template <class F> static F real(char const* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }

extern "C" {
FILE* fopen(char const* p, char const* m)
{
    if (is_virtual(p)) return v_fopen(p, m);
    static auto r = real<FILE* (*)(char const*, char const*)>("fopen");
    return r(p, m);
}
FILE* fopen64(char const* p, char const* m)
{
    if (is_virtual(p)) return v_fopen(p, m);
    static auto r = real<FILE* (*)(char const*, char const*)>("fopen64");
    return r(p, m);
}
int fclose(FILE* f)
{
    static auto r = real<int (*)(FILE*)>("fclose");
    files.erase(f);
    return r(f);
}
int fileno(FILE* f)
{
    auto it = files.find(f);
    if (it != files.end()) return it->second;
    static auto r = real<int (*)(FILE*)>("fileno");
    return r(f);
}
int open(char const* p, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    int const mode = va_arg(ap, int);
    va_end(ap);
    if (is_virtual(p)) {
        int const acc = fl & O_ACCMODE;
        return v_open(p, acc != O_WRONLY, acc != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND, fl & O_EXCL, "fopen");
    }
    return static_cast<int>(syscall(SYS_open, p, fl, mode));
}
int open64(char const* p, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    int const mode = va_arg(ap, int);
    va_end(ap);
    return open(p, fl, mode);
}
ssize_t read(int fd, void* b, size_t n) { return fds.count(fd) ? v_read(fd, b, n) : syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, void const* b, size_t n)
{
    if (fds.count(fd)) return v_write(fd, b, n);
    if (W.cur >= 0 && (fd == 1 || fd == 2)) {
        (fd == 1 ? me().out : me().err).append(static_cast<char const*>(b), n);
        return static_cast<ssize_t>(n);
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, struct iovec const* v, int n)
{
    if (!fds.count(fd)) return syscall(SYS_writev, fd, v, n);
    std::string s;
    for (int i = 0; i < n; ++i) s.append(static_cast<char const*>(v[i].iov_base), v[i].iov_len);
    return v_write(fd, s.data(), s.size());
}
off_t lseek(int fd, off_t o, int w) { return fds.count(fd) ? v_seek(fd, o, w) : syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return fds.count(fd) ? v_seek(fd, o, w) : syscall(SYS_lseek, fd, o, w); }
int close(int fd) { return fds.count(fd) ? v_close(fd) : static_cast<int>(syscall(SYS_close, fd)); }
int fsync(int fd)
{
    if (fds.count(fd)) {
        seam("fsync");
        return 0;
    }
    return static_cast<int>(syscall(SYS_fsync, fd));
}
int rename(char const* a, char const* b)
{
    if (is_virtual(a) || is_virtual(b)) {
        seam("rename");
        ++W.io_ops;
        if (fault_at("rename")) { errno = EIO; return -1; }
        std::string const x = absolute(a), y = absolute(b);
        auto n = find(x);
        if (!n || !parent_exists(y)) { errno = ENOENT; return -1; }
        disk[y] = n;
        disk.erase(x);
        journal("rename-to", y);
        return 0;
    }
    return static_cast<int>(syscall(SYS_rename, a, b));
}
int unlink(char const* a)
{
    if (is_virtual(a)) {
        seam("unlink");
        std::string const x = absolute(a);
        if (!disk.count(x)) { errno = ENOENT; return -1; }
        disk.erase(x);
        journal("unlink", x);
        return 0;
    }
    return static_cast<int>(syscall(SYS_unlink, a));
}
int remove(char const* a) { return is_virtual(a) ? unlink(a) : static_cast<int>(syscall(SYS_unlink, a)); }
int mkdir(char const* p, mode_t m)
{
    if (is_virtual(p)) {
        seam("mkdir");
        std::string const x = absolute(p);
        if (disk.count(x)) { errno = EEXIST; return -1; }
        if (!parent_exists(x)) { errno = ENOENT; return -1; }
        auto n = std::make_shared<Node>();
        n->dir = true;
        disk[x] = n;
        return 0;
    }
    return static_cast<int>(syscall(SYS_mkdir, p, m));
}
static int fill_stat(Node const& n, struct stat* st)
{
    std::memset(st, 0, sizeof *st);
    st->st_mode = n.dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
    st->st_size = static_cast<off_t>(n.bytes.size());
    st->st_blksize = 4096;
    st->st_nlink = 1;
    return 0;
}
int stat(char const* p, struct stat* st)
{
    if (is_virtual(p)) {
        auto n = find(absolute(p));
        if (!n) { errno = ENOENT; return -1; }
        return fill_stat(*n, st);
    }
    return static_cast<int>(syscall(SYS_stat, p, st));
}
int lstat(char const* p, struct stat* st) { return stat(p, st); }
int fstat(int fd, struct stat* st)
{
    auto it = fds.find(fd);
    if (it != fds.end()) return fill_stat(*it->second.node, st);
    return static_cast<int>(syscall(SYS_fstat, fd, st));
}
int access(char const* p, int m)
{
    if (is_virtual(p)) {
        if (find(absolute(p))) return 0;
        errno = ENOENT;
        return -1;
    }
    return static_cast<int>(syscall(SYS_access, p, m));
}

// ------------------------------------------------------------------ HDF5 C API
}
namespace {
struct Obj
{
    char kind; // F D S T A
    int owner;
    std::string name;
    std::shared_ptr<Node> node;
    std::string path;
    bool rw = false;
    int nd = 0;
    std::vector<uint64_t> dims;
    size_t size = 1;
    std::string dset;
};
std::map<hid_t, Obj> objs;
hid_t next_id = 1000;
hid_t add(Obj o)
{
    o.owner = W.cur;
    hid_t const id = next_id++;
    objs[id] = o;
    return id;
}
Obj* get(hid_t id, char kind)
{
    auto it = objs.find(id);
    if (it == objs.end() || it->second.kind != kind) return nullptr;
    if (it->second.owner != W.cur) violation("h5-usage", "HDF5 identifier of another process");
    return &it->second;
}
bool h5fault(char const* site)
{
    seam(site);
    ++W.io_ops;
    return fault_at(site) != nullptr;
}
herr_t h5close_id(hid_t id, char kind, char const* site)
{
    seam(site);
    Obj* o = get(id, kind);
    if (!o) return -1;
    if (kind == 'F') {
        Node& n = *o->node;
        if (o->rw) {
            if (--n.writers == 0) {
                n.file = n.inflight;
                n.inflight.reset();
                ++n.commits;
                journal("commit", o->path);
            }
        } else {
            --n.readers;
        }
    }
    // what was written since the last flush only reaches the disk when the file is closed
    bool failed = false;
    if (kind == 'F' && o->rw) {
        failed = o->node->dirty && fault_at(site);
        if (failed) o->node->torn = true;
        o->node->dirty = false;
    }
    objs.erase(id);
    return failed ? -1 : 0;
}
} // namespace
namespace sim {
void check_h5_leaks()
{
    for (auto& [id, o] : objs) {
        if (o.owner == W.cur) W.leaks.push_back("rank " + std::to_string(W.cur) + ": HDF5 identifier never closed (" + o.kind + " " + o.path + ")");
    }
}
void note_open_h5()
{
    for (auto& [id, o] : objs) {
        if (o.owner == W.cur) W.notes.push_back("open at the end: HDF5 identifier (" + std::string(1, o.kind) + " " + o.path + ")");
    }
}
} // namespace sim
extern "C" {
herr_t H5open(void) { return 0; }
herr_t H5close(void) { return 0; }
hid_t H5Fopen(char const* p, unsigned fl, hid_t)
{
    if (h5fault("H5Fopen")) return -1;
    std::string const path = absolute(p);
    auto n = find(path);
    if (!n || n->dir || !n->h5 || n->torn || (!n->file && !n->inflight)) return -1;
    bool const rw = fl & H5F_ACC_RDWR;
    if (n->writers || (rw && n->readers)) violation("io-conflict", "an output file is opened while another process writes it: " + path);
    if (rw) {
        n->inflight = std::make_shared<H5File>(*n->file);
        n->writers = 1;
    } else {
        ++n->readers;
    }
    Obj o {};
    o.kind = 'F';
    o.node = n;
    o.path = path;
    o.rw = rw;
    return add(o);
}
hid_t H5Fcreate(char const* p, unsigned, hid_t, hid_t)
{
    if (h5fault("H5Fcreate")) return -1;
    std::string const path = absolute(p);
    if (!parent_exists(path)) return -1;
    auto n = find(path);
    if (n && (n->writers || n->readers)) violation("io-conflict", "an output file is created while another process uses it: " + path);
    n = std::make_shared<Node>();
    n->h5 = true;
    n->inflight = std::make_shared<H5File>();
    n->writers = 1;
    disk[path] = n;
    journal("create", path);
    Obj o {};
    o.kind = 'F';
    o.node = n;
    o.path = path;
    o.rw = true;
    return add(o);
}
herr_t H5Fclose(hid_t id) { return h5close_id(id, 'F', "H5Fclose"); }
herr_t H5Oclose(hid_t id) { return h5close_id(id, 'D', "H5Dclose"); }
herr_t H5Gclose(hid_t) { return -1; }
herr_t H5Fflush(hid_t id, H5F_scope_t)
{
    if (h5fault("H5Fflush")) return -1;
    Obj* o = get(id, 'F');
    if (!o) return -1;
    if (o->rw) o->node->dirty = false;
    return 0;
}
htri_t H5Fis_hdf5(char const* p)
{
    auto n = find(absolute(p));
    if (!n) return -1;
    return n->h5 && !n->torn;
}
hid_t H5Screate(H5S_class_t)
{
    if (h5fault("H5Screate")) return -1;
    Obj o {};
    o.kind = 'S';
    return add(o);
}
hid_t H5Screate_simple(int nd, hsize_t const* d, hsize_t const*)
{
    if (h5fault("H5Screate")) return -1;
    Obj o {};
    o.kind = 'S';
    o.nd = nd;
    o.dims.assign(d, d + nd);
    return add(o);
}
herr_t H5Sclose(hid_t id) { return h5close_id(id, 'S', "H5Sclose"); }
int H5Sget_simple_extent_ndims(hid_t id)
{
    if (h5fault("H5Sget_ndims")) return -1;
    Obj* o = get(id, 'S');
    return o ? o->nd : -1;
}
int H5Sget_simple_extent_dims(hid_t id, hsize_t* d, hsize_t* m)
{
    if (h5fault("H5Sget_dims")) return -1;
    Obj* o = get(id, 'S');
    if (!o) return -1;
    for (int i = 0; i < o->nd; ++i) {
        if (d) d[i] = o->dims[static_cast<size_t>(i)];
        if (m) m[i] = o->dims[static_cast<size_t>(i)];
    }
    return o->nd;
}
hssize_t H5Sget_simple_extent_npoints(hid_t id)
{
    Obj* o = get(id, 'S');
    if (!o) return -1;
    hssize_t n = 1;
    for (uint64_t x : o->dims) n *= static_cast<hssize_t>(x);
    return n;
}
hid_t H5Tcopy(hid_t)
{
    if (h5fault("H5Tcopy")) return -1;
    Obj o {};
    o.kind = 'T';
    return add(o);
}
herr_t H5Tset_size(hid_t id, size_t n)
{
    if (h5fault("H5Tset_size")) return -1;
    Obj* o = get(id, 'T');
    if (!o || n == 0) return -1;
    o->size = n;
    return 0;
}
herr_t H5Tset_cset(hid_t id, H5T_cset_t)
{
    if (h5fault("H5Tset_cset")) return -1;
    return get(id, 'T') ? 0 : -1;
}
herr_t H5Tclose(hid_t id) { return h5close_id(id, 'T', "H5Tclose"); }
hid_t H5Acreate2(hid_t f, char const* name, hid_t t, hid_t s, hid_t, hid_t)
{
    if (h5fault("H5Acreate")) return -1;
    Obj* o = get(f, 'F');
    Obj* ty = get(t, 'T');
    if (!o || !ty || !get(s, 'S') || !o->rw) return -1;
    if (o->node->inflight->attrs.count(name)) return -1;
    o->node->dirty = true;
    o->node->inflight->attrs[name] = std::string(ty->size, '\0');
    Obj a {};
    a.kind = 'A';
    a.node = o->node;
    a.name = name;
    a.size = ty->size;
    a.path = o->path;
    return add(a);
}
herr_t H5Awrite(hid_t id, hid_t t, void const* b)
{
    if (h5fault("H5Awrite")) return -1;
    Obj* a = get(id, 'A');
    Obj* ty = get(t, 'T');
    if (!a || !ty) return -1;
    a->node->dirty = true;
    a->node->inflight->attrs[a->name] = std::string(static_cast<char const*>(b), ty->size);
    return 0;
}
herr_t H5Aclose(hid_t id) { return h5close_id(id, 'A', "H5Aclose"); }
htri_t H5Aexists(hid_t f, char const* name)
{
    Obj* o = get(f, 'F');
    if (!o) return -1;
    auto h = o->rw ? o->node->inflight : o->node->file;
    return h->attrs.count(name) ? 1 : 0;
}
static H5Dataset* ds_of(Obj& o, std::string const& name)
{
    auto h = o.rw ? o.node->inflight : o.node->file;
    std::string n = name;
    while (!n.empty() && n[0] == '/') n.erase(0, 1);
    auto it = h->dsets.find(n);
    return it == h->dsets.end() ? nullptr : &it->second;
}
htri_t H5Lexists(hid_t f, char const* name, hid_t)
{
    Obj* o = get(f, 'F');
    if (!o) return -1;
    return ds_of(*o, name) ? 1 : 0;
}
hid_t H5Dopen2(hid_t f, char const* name, hid_t)
{
    if (h5fault("H5Dopen")) return -1;
    Obj* o = get(f, 'F');
    if (!o) return -1;
    H5Dataset* d = ds_of(*o, name);
    if (!d) return -1;
    Obj x {};
    x.kind = 'D';
    x.node = o->node;
    x.path = o->path;
    x.rw = o->rw;
    x.nd = static_cast<int>(d->dims.size());
    x.dims = d->dims;
    x.dset = name;
    return add(x);
}
hid_t H5Dget_space(hid_t id)
{
    if (h5fault("H5Dget_space")) return -1;
    Obj* d = get(id, 'D');
    if (!d) return -1;
    Obj x {};
    x.kind = 'S';
    x.nd = d->nd;
    x.dims = d->dims;
    return add(x);
}
hid_t H5Dget_type(hid_t id)
{
    if (!get(id, 'D')) return -1;
    Obj x {};
    x.kind = 'T';
    x.size = 8;
    return add(x);
}
herr_t H5Dread(hid_t id, hid_t, hid_t, hid_t, hid_t, void* b)
{
    if (h5fault("H5Dread")) return -1;
    Obj* d = get(id, 'D');
    if (!d) return -1;
    H5Dataset* s = ds_of(*d, d->dset);
    if (!s) return -1;
    std::memcpy(b, s->data.data(), s->data.size());
    return 0;
}
herr_t H5Dclose(hid_t id) { return h5close_id(id, 'D', "H5Dclose"); }
}
