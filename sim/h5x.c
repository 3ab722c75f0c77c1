// h5x: dump every dataset of the given HDF5 files as a flat binary stream for the checker.
// record: "DS <path> <class f|i> <size> <n>\n" + raw native double/int64 data; "ERR <what>\n" when something cannot be read.
#include <hdf5.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static int nerr;
static herr_t visit(hid_t f, const char *name, const H5L_info_t *info, void *p) {
  hid_t o = H5Oopen(f, name, H5P_DEFAULT);
  if (o < 0) { printf("ERR open %s\n", name); nerr++; return 0; }
  if (H5Iget_type(o) == H5I_DATASET) {
    hid_t s = H5Dget_space(o), t = H5Dget_type(o);
    long n = H5Sget_simple_extent_npoints(s);
    H5T_class_t c = H5Tget_class(t);
    int sz = (int)H5Tget_size(t);
    if (c == H5T_FLOAT || c == H5T_INTEGER) {
      double *d = malloc((n > 0 ? n : 1) * sizeof(double));
      if (H5Dread(o, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, d) < 0) { printf("ERR read %s\n", name); nerr++; }
      else { printf("DS %s %c %d %ld\n", name, c == H5T_FLOAT ? 'f' : 'i', sz, n); fwrite(d, sizeof(double), n, stdout); printf("\n"); }
      free(d);
    }
    H5Tclose(t); H5Sclose(s);
  }
  H5Oclose(o);
  return 0;
}
int main(int n, char **a) {
  H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
  for (int i = 1; i < n; i++) {
    printf("FILE %s\n", a[i]);
    hid_t f = H5Fopen(a[i], H5F_ACC_RDONLY, H5P_DEFAULT);
    if (f < 0) { printf("ERR file\n"); nerr++; continue; }
    H5Lvisit(f, H5_INDEX_NAME, H5_ITER_NATIVE, visit, NULL);
    H5Fclose(f);
  }
  return 0;
}
