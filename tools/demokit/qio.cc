#include "qio.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
// The master node does all file I/O; sites travel over the message layer.
struct Common { FILE* f; QIO_Layout lay; std::vector<int> latt; bool header_read; QIO_RecordInfo info; std::string xml; long datalen; };
struct QIO_Reader : Common {};
struct QIO_Writer : Common {};
static int master(const QIO_Layout& l) { return 0; }
static void agree(const QIO_Layout& l, void* p, size_t n) { if (l.number_of_nodes > 1) QMP_broadcast(p, n); }
QIO_String* QIO_string_create(void) { QIO_String* s = (QIO_String*)malloc(sizeof(QIO_String)); s->length = 1; s->string = (char*)calloc(1, 1); return s; }
void QIO_string_destroy(QIO_String* s) { if (s) { free(s->string); free(s); } }
void QIO_string_set(QIO_String* s, const char* c) { free(s->string); s->length = strlen(c) + 1; s->string = (char*)malloc(s->length); memcpy(s->string, c, s->length); }
char* QIO_string_ptr(QIO_String* s) { return s->string; }
QIO_RecordInfo* QIO_create_record_info(int rt, int* lo, int* up, int n, const char* dt, const char* pr, int col, int sp, int ts, int dc) {
  QIO_RecordInfo* r = (QIO_RecordInfo*)calloc(1, sizeof *r);
  r->recordtype = rt; r->n = n;
  for (int i = 0; i < n && i < 8; ++i) { r->lower[i] = lo[i]; r->upper[i] = up[i]; }
  strncpy(r->datatype, dt, 63); strncpy(r->precision, pr, 7); r->colors = col; r->spins = sp; r->typesize = ts; r->datacount = dc;
  return r;
}
void QIO_destroy_record_info(QIO_RecordInfo* r) { free(r); }
int QIO_get_datacount(QIO_RecordInfo* r) { return r->datacount; }
char* QIO_get_precision(QIO_RecordInfo* r) { return r->precision; }
static void setup(Common* c, QIO_Layout* l) { c->f = NULL; c->lay = *l; c->latt.assign(l->latsize, l->latsize + l->latdim); c->lay.latsize = &c->latt[0]; c->header_read = false; }
static void swapw(char* p, size_t n, int w) { if (w > 1) for (size_t i = 0; i + w <= n; i += w) for (int a = 0, b = w - 1; a < b; ++a, --b) { char t = p[i + a]; p[i + a] = p[i + b]; p[i + b] = t; } }
static unsigned rotsum(const char* p, size_t n, unsigned h) { for (size_t i = 0; i < n; ++i) h = ((h << 5) | (h >> 27)) ^ (unsigned char)p[i] * 2654435761u; return h; }
static bool inside(const QIO_RecordInfo& r, const int* x, int nd) {
  if (r.recordtype != QIO_HYPER) return true;
  for (int i = 0; i < nd && i < r.n; ++i) if (x[i] < r.lower[i] || x[i] > r.upper[i]) return false;
  return true;
}
static bool next(const Common* c, std::vector<int>& x) { for (size_t i = 0; i < x.size(); ++i) { if (++x[i] < c->latt[i]) return true; x[i] = 0; } return false; }
static long nsites(const Common* c, const QIO_RecordInfo& r) {
  if (r.recordtype == QIO_GLOBAL) return 1;
  long n = 0; std::vector<int> x(c->latt.size(), 0);
  do n += inside(r, &x[0], x.size()); while (next(c, x));
  return n;
}
QIO_Writer* QIO_open_write(QIO_String* xml, const char* path, int volfmt, QIO_Layout* l, QIO_Filesystem*, QIO_Oflag* o) {
  QIO_Writer* w = new QIO_Writer; setup(w, l);
  int ok = 1;
  if (volfmt != QIO_SINGLEFILE) ok = 0;
  if (ok && l->this_node == master(*l)) {
    w->f = fopen(path, o->mode == QIO_APPEND ? "ab" : "wb");
    if (!w->f) ok = 0;
    else if (o->mode != QIO_APPEND) {
      char h[64]; int n = snprintf(h, sizeof h, "SIMQIO %zu\n", strlen(xml->string));
      if (fwrite(h, 1, n, w->f) != (size_t)n || fwrite(xml->string, 1, strlen(xml->string), w->f) != strlen(xml->string)) ok = 0;
    }
  }
  agree(*l, &ok, sizeof ok);
  if (!ok) { if (w->f) fclose(w->f); delete w; return NULL; }
  return w;
}
QIO_Reader* QIO_open_read(QIO_String* xml, const char* path, QIO_Layout* l, QIO_Filesystem*, QIO_Iflag*) {
  QIO_Reader* r = new QIO_Reader; setup(r, l);
  int ok = 1;
  if (l->this_node == master(*l)) {
    size_t n = 0; std::string s;
    r->f = fopen(path, "rb");
    if (!r->f || fscanf(r->f, "SIMQIO %zu", &n) != 1 || fgetc(r->f) != '\n' || n > 1000000) ok = 0;
    else { s.resize(n); if (n && fread(&s[0], 1, n, r->f) != n) ok = 0; else QIO_string_set(xml, s.c_str()); }
  }
  agree(*l, &ok, sizeof ok);
  if (!ok) { if (r->f) fclose(r->f); delete r; return NULL; }
  return r;
}
int QIO_close_write(QIO_Writer* w) { int st = QIO_SUCCESS; if (w->f && fclose(w->f) != 0) st = QIO_ERR_IO; delete w; return st; }
int QIO_close_read(QIO_Reader* r) { if (r->f) fclose(r->f); delete r; return QIO_SUCCESS; }
int QIO_write(QIO_Writer* w, QIO_RecordInfo* info, QIO_String* xml, void (*get)(char*, size_t, int, void*), size_t size, int word, void* arg) {
  const QIO_Layout& l = w->lay; int m = master(l), st = QIO_SUCCESS; bool me = l.this_node == m;
  long ns = nsites(w, *info), dl = ns * (long)size;
  FILE* f = w->f;
  auto put = [&](const void* p, size_t n) { if (me && fwrite(p, 1, n, f) != n) st = QIO_ERR_IO; };
  if (me) {
    char h[400]; int n = snprintf(h, sizeof h, "RECORD %d %d %s %s %d %d %d %d %zu %ld %d", info->recordtype, info->n, info->datatype[0] ? info->datatype : "-", info->precision, info->colors, info->spins, info->typesize, info->datacount, strlen(xml->string), dl, word);
    for (int i = 0; i < info->n; ++i) n += snprintf(h + n, sizeof h - n, " %d %d", info->lower[i], info->upper[i]);
    n += snprintf(h + n, sizeof h - n, "\n");
    put(h, n); put(xml->string, strlen(xml->string));
  }
  std::vector<char> b(size);
  unsigned sum = 1;
  if (info->recordtype == QIO_GLOBAL) {
    if (me) { get(&b[0], 0, info->datacount, arg); swapw(&b[0], size, word); sum = rotsum(&b[0], size, sum); put(&b[0], size); }
  } else {
    std::vector<int> x(w->latt.size(), 0);
    do {
      if (!inside(*info, &x[0], x.size())) continue;
      int owner = l.node_number(&x[0]);
      if (owner == l.this_node) get(&b[0], l.node_index(&x[0]), 1, arg);
      if (owner != m && l.number_of_nodes > 1) DML_route_bytes(&b[0], size, owner, m);
      if (me) { swapw(&b[0], size, word); sum = rotsum(&b[0], size, sum); put(&b[0], size); }
    } while (next(w, x));
  }
  put(&sum, sizeof sum);
  if (me && fflush(f) != 0) st = QIO_ERR_IO;
  agree(l, &st, sizeof st);
  return st;
}
int QIO_read_record_info(QIO_Reader* r, QIO_RecordInfo* info, QIO_String* xml) {
  const QIO_Layout& l = r->lay; int st = QIO_SUCCESS;
  if (!r->header_read) {
    memset(&r->info, 0, sizeof r->info); r->xml.clear(); r->datalen = 0;
    if (l.this_node == master(l)) {
      QIO_RecordInfo& i = r->info; size_t xl = 0; int word;
      if (fscanf(r->f, "RECORD %d %d %63s %7s %d %d %d %d %zu %ld %d", &i.recordtype, &i.n, i.datatype, i.precision, &i.colors, &i.spins, &i.typesize, &i.datacount, &xl, &r->datalen, &word) != 11 || i.n < 0 || i.n > 8 || xl > 1000000) st = QIO_ERR_FORMAT;
      else {
        for (int k = 0; k < i.n; ++k) if (fscanf(r->f, "%d %d", &i.lower[k], &i.upper[k]) != 2) st = QIO_ERR_FORMAT;
        if (fgetc(r->f) != '\n') st = QIO_ERR_FORMAT;
        if (st == QIO_SUCCESS) { r->xml.resize(xl); if (xl && fread(&r->xml[0], 1, xl, r->f) != xl) st = QIO_ERR_IO; }
      }
    }
    agree(l, &st, sizeof st);
    if (st != QIO_SUCCESS) return st;
    agree(l, &r->info, sizeof r->info); agree(l, &r->datalen, sizeof r->datalen);
    r->header_read = true;
  }
  *info = r->info;
  if (l.this_node == master(l)) QIO_string_set(xml, r->xml.c_str());
  return QIO_SUCCESS;
}
int QIO_read_record_data(QIO_Reader* r, void (*put)(char*, size_t, int, void*), size_t size, int word, void* arg) {
  const QIO_Layout& l = r->lay; int m = master(l), st = QIO_SUCCESS; bool me = l.this_node == m;
  if (!r->header_read) return QIO_ERR_FORMAT;
  r->header_read = false;
  long ns = nsites(r, r->info);
  if (ns * (long)size != r->datalen) return QIO_ERR_FORMAT;
  std::vector<char> b(size); unsigned sum = 1, want = 0;
  if (r->info.recordtype == QIO_GLOBAL) {
    if (me) { if (fread(&b[0], 1, size, r->f) != size) st = QIO_ERR_IO; sum = rotsum(&b[0], size, sum); swapw(&b[0], size, word); }
    agree(l, &b[0], size);
    put(&b[0], 0, r->info.datacount, arg);
  } else {
    std::vector<int> x(r->latt.size(), 0);
    do {
      if (!inside(r->info, &x[0], x.size())) continue;
      int owner = l.node_number(&x[0]);
      if (me) { if (fread(&b[0], 1, size, r->f) != size) st = QIO_ERR_IO; sum = rotsum(&b[0], size, sum); swapw(&b[0], size, word); }
      if (owner != m && l.number_of_nodes > 1) DML_route_bytes(&b[0], size, m, owner);
      if (owner == l.this_node) put(&b[0], l.node_index(&x[0]), 1, arg);
    } while (next(r, x));
  }
  if (me && (fread(&want, 1, sizeof want, r->f) != sizeof want || (st == QIO_SUCCESS && want != sum))) st = st == QIO_SUCCESS ? QIO_ERR_CHECKSUM : st;
  agree(l, &st, sizeof st);
  return st;
}
