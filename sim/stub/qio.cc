#include "qio.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
// Single file: the master node does all file I/O.  Part files: each I/O node keeps the
// sites of its partition in a file of its own.  Sites travel over the message layer.
struct Common { FILE* f; int fmt; bool reading; int (*io)(int); QIO_Layout lay; std::vector<int> latt; bool header_read; QIO_RecordInfo info; std::string xml; long datalen; };
struct QIO_Reader : Common {};
struct QIO_Writer : Common {};
static int master(const QIO_Layout& l) { return 0; }
static void agree(const QIO_Layout& l, void* p, size_t n) { if (l.number_of_nodes > 1) QMP_broadcast(p, n); }
QIO_String* QIO_string_create(void) { QIO_String* s = (QIO_String*)malloc(sizeof(QIO_String)); s->length = 1; s->string = (char*)calloc(1, 1); return s; }
void QIO_string_destroy(QIO_String* s) { if (s) { free(s->string); free(s); } }
void QIO_string_set(QIO_String* s, const char* c) { free(s->string); s->length = strlen(c) + 1; s->string = (char*)malloc(s->length); memcpy(s->string, c, s->length); }
char* QIO_string_ptr(QIO_String* s) { return s->string; }
QIO_RecordInfo* QIO_create_record_info(int rt, int* lo, int* up, int n, const char* dt, const char* pr, int col, int sp, int ts, int dc) {
  QIO_RecordInfo* r = (QIO_RecordInfo*)calloc(1, sizeof *r);
  r->recordtype = rt; r->n = n;
  for (int i = 0; i < n && i < 8; ++i) { r->lower[i] = lo[i]; r->upper[i] = up[i]; }
  strncpy(r->datatype, dt, 63); strncpy(r->precision, pr, 7); r->colors = col; r->spins = sp; r->typesize = ts; r->datacount = dc;
  return r;
}
void QIO_destroy_record_info(QIO_RecordInfo* r) { free(r); }
int QIO_get_datacount(QIO_RecordInfo* r) { return r->datacount; }
char* QIO_get_precision(QIO_RecordInfo* r) { return r->precision; }
static void setup(Common* c, QIO_Layout* l, QIO_Filesystem* fs) { c->f = NULL; c->fmt = QIO_SINGLEFILE; c->reading = false; c->io = fs->my_io_node; c->lay = *l; c->latt.assign(l->latsize, l->latsize + l->latdim); c->lay.latsize = &c->latt[0]; c->header_read = false;
  // the layout handed over must describe one and the same distribution in both directions
  int n = l->num_sites(l->this_node); long tot = 0; for (int k = 0; k < l->number_of_nodes; ++k) tot += l->num_sites(k);
  std::vector<int> x(l->latdim); bool ok = tot == (long)l->volume && n == (int)l->sites_on_node && fs->master_io_node() == 0;
  for (int i = 0; ok && i < n; ++i) { l->get_coords(&x[0], l->this_node, i); ok = l->node_number(&x[0]) == l->this_node && l->node_index(&x[0]) == i; for (int m = 0; m < l->latdim; ++m) ok = ok && x[m] >= 0 && x[m] < l->latsize[m]; }
  if (!ok) { fprintf(stderr, "qio: the layout is inconsistent on node %d\n", l->this_node); abort(); } }
static void swapw(char* p, size_t n, int w) { if (w > 1) for (size_t i = 0; i + w <= n; i += w) for (int a = 0, b = w - 1; a < b; ++a, --b) { char t = p[i + a]; p[i + a] = p[i + b]; p[i + b] = t; } }
static unsigned rotsum(const char* p, size_t n, unsigned h) { for (size_t i = 0; i < n; ++i) h = ((h << 5) | (h >> 27)) ^ (unsigned char)p[i] * 2654435761u; return h; }
static bool inside(const QIO_RecordInfo& r, const int* x, int nd) {
  if (r.recordtype != QIO_HYPER) return true;
  for (int i = 0; i < nd && i < r.n; ++i) if (x[i] < r.lower[i] || x[i] > r.upper[i]) return false;
  return true;
}
static bool next(const Common* c, std::vector<int>& x) { for (size_t i = 0; i < x.size(); ++i) { if (++x[i] < c->latt[i]) return true; x[i] = 0; } return false; }
static long nsites(const Common* c, const QIO_RecordInfo& r) {
  if (r.recordtype == QIO_GLOBAL) return 1;
  long n = 0; std::vector<int> x(c->latt.size(), 0);
  do n += inside(r, &x[0], x.size()); while (next(c, x));
  return n;
}
static int keeper(const Common* c, int node) {          // the node that keeps the sites of a node
  if (c->fmt == QIO_SINGLEFILE) return master(c->lay);
  int k = c->fmt == QIO_MULTIFILE && c->reading ? node : c->io(node);
  if (k < 0 || k >= c->lay.number_of_nodes || (c->fmt == QIO_MULTIFILE ? k != node : c->io(k) != k)) { fprintf(stderr, "qio: node %d has I/O node %d, which is none\n", node, k); abort(); }
  return k;
}
static std::string fname(const Common* c, const char* path) { char b[32]; snprintf(b, sizeof b, ".vol%04d", c->lay.this_node); return c->fmt == QIO_SINGLEFILE ? std::string(path) : path + std::string(b); }
static void join(const QIO_Layout& l, int* st) {          // any failure is everybody's
  if (l.number_of_nodes == 1) return;
  double x = *st != 0; QMP_sum_double(&x); if (x > 0 && *st == 0) *st = QIO_ERR_IO; if (x > 0) agree(l, st, sizeof *st); if (x > 0 && *st == 0) *st = QIO_ERR_IO;
}
QIO_Writer* QIO_open_write(QIO_String* xml, const char* path, int volfmt, QIO_Layout* l, QIO_Filesystem* fs, QIO_Oflag* o) {
  QIO_Writer* w = new QIO_Writer; setup(w, l, fs); w->fmt = volfmt;
  int st = 0;
  if (keeper(w, l->this_node) == l->this_node) {
    w->f = fopen(fname(w, path).c_str(), o->mode == QIO_APPEND ? "ab" : "wb");
    if (!w->f) st = QIO_ERR_OPEN;
    else if (o->mode != QIO_APPEND) {
      char h[64]; int n = snprintf(h, sizeof h, "SIMQIO %d %zu\n", volfmt, strlen(xml->string));
      if (fwrite(h, 1, n, w->f) != (size_t)n || fwrite(xml->string, 1, strlen(xml->string), w->f) != strlen(xml->string)) st = QIO_ERR_IO;
    }
  }
  join(*l, &st);
  if (st) { if (w->f) fclose(w->f); delete w; return NULL; }
  return w;
}
QIO_Reader* QIO_open_read(QIO_String* xml, const char* path, QIO_Layout* l, QIO_Filesystem* fs, QIO_Iflag*) {
  QIO_Reader* r = new QIO_Reader; setup(r, l, fs); r->reading = true;
  int st = 0; bool me = l->this_node == master(*l);
  if (me) {
    r->f = fopen(path, "rb");
    if (!r->f) { r->fmt = QIO_PARTFILE; r->f = fopen(fname(r, path).c_str(), "rb"); }
    if (!r->f) st = QIO_ERR_OPEN;
  }
  auto head = [&] {
    size_t n = 0; int fmt = -1; std::string s;
    if (fscanf(r->f, "SIMQIO %d %zu", &fmt, &n) != 2 || fgetc(r->f) != '\n' || n > 1000000) st = QIO_ERR_FORMAT;
    else { s.resize(n); if (n && fread(&s[0], 1, n, r->f) != n) st = QIO_ERR_IO; else if (me) { r->fmt = fmt; QIO_string_set(xml, s.c_str()); } else if (fmt != r->fmt) st = QIO_ERR_FORMAT; }
  };
  if (me && !st) head();
  agree(*l, &st, sizeof st); agree(*l, &r->fmt, sizeof r->fmt);
  if (!st && !me && keeper(r, l->this_node) == l->this_node) { r->f = fopen(fname(r, path).c_str(), "rb"); if (!r->f) st = QIO_ERR_OPEN; else head(); }
  join(*l, &st);
  if (st) { if (r->f) fclose(r->f); delete r; return NULL; }
  return r;
}
int QIO_close_write(QIO_Writer* w) { int st = QIO_SUCCESS; if (w->f && fclose(w->f) != 0) st = QIO_ERR_IO; delete w; return st; }
int QIO_close_read(QIO_Reader* r) { if (r->f) fclose(r->f); delete r; return QIO_SUCCESS; }
int QIO_write(QIO_Writer* w, QIO_RecordInfo* info, QIO_String* xml, void (*get)(char*, size_t, int, void*), size_t size, int word, void* arg) {
  const QIO_Layout& l = w->lay; int st = QIO_SUCCESS, self = l.this_node; bool me = self == master(l);
  long ns = nsites(w, *info), dl = ns * (long)size;
  FILE* f = w->f;
  auto put = [&](const void* p, size_t n) { if (f && fwrite(p, 1, n, f) != n) st = QIO_ERR_IO; };
  if (f) {
    size_t xl = me ? strlen(xml->string) : 0;
    char h[400]; int n = snprintf(h, sizeof h, "RECORD %d %d %s %s %d %d %d %d %zu %ld %d", info->recordtype, info->n, info->datatype[0] ? info->datatype : "-", info->precision, info->colors, info->spins, info->typesize, info->datacount, xl, dl, word);
    for (int i = 0; i < info->n; ++i) n += snprintf(h + n, sizeof h - n, " %d %d", info->lower[i], info->upper[i]);
    n += snprintf(h + n, sizeof h - n, "\n");
    put(h, n); put(xml->string, xl);
  }
  std::vector<char> b(size + 1);
  unsigned sum = 1;
  if (info->recordtype == QIO_GLOBAL) {
    if (me) { get(&b[0], 0, info->datacount, arg); swapw(&b[0], size, word); sum = rotsum(&b[0], size, sum); put(&b[0], size); }
  } else {
    std::vector<int> x(w->latt.size(), 0);
    do {
      if (!inside(*info, &x[0], x.size())) continue;
      int owner = l.node_number(&x[0]), k = keeper(w, owner);
      if (owner == self) get(&b[0], l.node_index(&x[0]), 1, arg);
      if (owner != k && l.number_of_nodes > 1) DML_route_bytes(&b[0], size, owner, k);
      if (k == self) { swapw(&b[0], size, word); sum = rotsum(&b[0], size, sum); put(&b[0], size); }
    } while (next(w, x));
  }
  put(&sum, sizeof sum);
  if (f && fflush(f) != 0) st = QIO_ERR_IO;
  join(l, &st);
  return st;
}
static int header(QIO_Reader* r, QIO_RecordInfo& i, std::string& xml, long& dl) {
  size_t xl = 0; int word, st = QIO_SUCCESS;
  if (fscanf(r->f, "RECORD %d %d %63s %7s %d %d %d %d %zu %ld %d", &i.recordtype, &i.n, i.datatype, i.precision, &i.colors, &i.spins, &i.typesize, &i.datacount, &xl, &dl, &word) != 11 || i.n < 0 || i.n > 8 || xl > 1000000) return QIO_ERR_FORMAT;
  for (int k = 0; k < i.n; ++k) if (fscanf(r->f, "%d %d", &i.lower[k], &i.upper[k]) != 2) st = QIO_ERR_FORMAT;
  if (fgetc(r->f) != '\n') st = QIO_ERR_FORMAT;
  if (st == QIO_SUCCESS) { xml.resize(xl); if (xl && fread(&xml[0], 1, xl, r->f) != xl) st = QIO_ERR_IO; }
  return st;
}
int QIO_read_record_info(QIO_Reader* r, QIO_RecordInfo* info, QIO_String* xml) {
  const QIO_Layout& l = r->lay; int st = QIO_SUCCESS; bool me = l.this_node == master(l);
  if (!r->header_read) {
    memset(&r->info, 0, sizeof r->info); r->xml.clear(); r->datalen = 0;
    if (me) st = header(r, r->info, r->xml, r->datalen);
    else if (r->f) { QIO_RecordInfo i; std::string x; long dl; memset(&i, 0, sizeof i); st = header(r, i, x, dl); }
    join(l, &st);
    if (st != QIO_SUCCESS) return st;
    agree(l, &r->info, sizeof r->info); agree(l, &r->datalen, sizeof r->datalen);
    r->header_read = true;
  }
  *info = r->info;
  if (me) QIO_string_set(xml, r->xml.c_str());
  return QIO_SUCCESS;
}
int QIO_read_record_data(QIO_Reader* r, void (*put)(char*, size_t, int, void*), size_t size, int word, void* arg) {
  const QIO_Layout& l = r->lay; int m = master(l), st = QIO_SUCCESS, self = l.this_node; bool me = self == m;
  if (!r->header_read) return QIO_ERR_FORMAT;
  r->header_read = false;
  long ns = nsites(r, r->info);
  if (ns * (long)size != r->datalen) return QIO_ERR_FORMAT;
  std::vector<char> b(size + 1); unsigned sum = 1, want = 0;
  auto take = [&] { if (fread(&b[0], 1, size, r->f) != size) st = QIO_ERR_IO; sum = rotsum(&b[0], size, sum); swapw(&b[0], size, word); };
  if (r->info.recordtype == QIO_GLOBAL) {
    if (me && size) take();
    if (size) agree(l, &b[0], size);
    put(size ? &b[0] : NULL, 0, r->info.datacount, arg);
  } else {
    std::vector<int> x(r->latt.size(), 0);
    do {
      if (!inside(r->info, &x[0], x.size())) continue;
      int owner = l.node_number(&x[0]), k = keeper(r, owner);
      if (k == self) take();
      if (owner != k && l.number_of_nodes > 1) DML_route_bytes(&b[0], size, k, owner);
      if (owner == self) put(&b[0], l.node_index(&x[0]), 1, arg);
    } while (next(r, x));
  }
  if (r->f && (fread(&want, 1, sizeof want, r->f) != sizeof want || (st == QIO_SUCCESS && want != sum))) st = st == QIO_SUCCESS ? QIO_ERR_CHECKSUM : st;
  join(l, &st);
  return st;
}
