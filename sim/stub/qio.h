// Stand-in for the (absent) QIO record file library.  Single file, one record
// after another: header, user metadata, data in lexicographic site order.
#ifndef SIM_QIO_H
#define SIM_QIO_H
#include <cstddef>
#include <stdint.h>
typedef uint32_t n_uint32_t;
#define QIO_SUCCESS 0
#define QIO_EOF (-1)
#define QIO_ERR_OPEN 1
#define QIO_ERR_IO 2
#define QIO_ERR_FORMAT 3
#define QIO_ERR_CHECKSUM 4
#define QIO_UNKNOWN (-1)
#define QIO_SINGLEFILE 0
#define QIO_MULTIFILE 1
#define QIO_PARTFILE 2
#define QIO_CREAT 0
#define QIO_TRUNC 1
#define QIO_APPEND 2
#define QIO_SERIAL 0
#define QIO_PARALLEL 1
#define QIO_FIELD 0
#define QIO_GLOBAL 1
#define QIO_HYPER 2
#define QIO_ILDGNO 0
#define QIO_ILDGLAT 1
struct QIO_Layout {
  int (*node_number)(const int coord[]); int (*node_index)(const int coord[]); void (*get_coords)(int coord[], int node, int index);
  int (*num_sites)(int node); int* latsize; int latdim; size_t volume; size_t sites_on_node; int this_node; int number_of_nodes;
};
struct QIO_Filesystem { int (*my_io_node)(int node); int (*master_io_node)(void); };
struct QIO_String { size_t length; char* string; };
struct QIO_Iflag { int serpar; int volfmt; };
struct QIO_Oflag { int serpar; int mode; int ildgstyle; QIO_String* ildgLFN; };
struct QIO_RecordInfo { int recordtype; int lower[8], upper[8]; int n; char datatype[64]; char precision[8]; int colors, spins, typesize, datacount; };
struct QIO_Reader; struct QIO_Writer;
QIO_String* QIO_string_create(void);
void QIO_string_destroy(QIO_String*);
void QIO_string_set(QIO_String*, const char*);
char* QIO_string_ptr(QIO_String*);
QIO_RecordInfo* QIO_create_record_info(int recordtype, int* lower, int* upper, int n, const char* datatype, const char* precision, int colors, int spins, int typesize, int datacount);
void QIO_destroy_record_info(QIO_RecordInfo*);
int QIO_get_datacount(QIO_RecordInfo*);
char* QIO_get_precision(QIO_RecordInfo*);
QIO_Writer* QIO_open_write(QIO_String* xml, const char* path, int volfmt, QIO_Layout*, QIO_Filesystem*, QIO_Oflag*);
QIO_Reader* QIO_open_read(QIO_String* xml, const char* path, QIO_Layout*, QIO_Filesystem*, QIO_Iflag*);
int QIO_close_write(QIO_Writer*);
int QIO_close_read(QIO_Reader*);
int QIO_write(QIO_Writer*, QIO_RecordInfo*, QIO_String* xml, void (*get)(char* buf, size_t index, int count, void* arg), size_t datum_size, int word_size, void* arg);
int QIO_read_record_info(QIO_Reader*, QIO_RecordInfo*, QIO_String* xml);
int QIO_read_record_data(QIO_Reader*, void (*put)(char* buf, size_t index, int count, void* arg), size_t datum_size, int word_size, void* arg);
#include <qmp.h>
#endif
