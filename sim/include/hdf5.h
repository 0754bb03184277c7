#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int64_t hid_t;
typedef int herr_t;
typedef unsigned long long hsize_t;
typedef long long hssize_t;
typedef int htri_t;
#define H5F_ACC_RDONLY 0x0000u
#define H5F_ACC_RDWR 0x0001u
#define H5F_ACC_TRUNC 0x0002u
#define H5F_ACC_EXCL 0x0004u
#define H5P_DEFAULT ((hid_t)0)
#define H5S_ALL ((hid_t)0)
typedef enum { H5S_NO_CLASS = -1, H5S_SCALAR = 0, H5S_SIMPLE = 1, H5S_NULL = 2 } H5S_class_t;
typedef enum { H5T_CSET_ASCII = 0, H5T_CSET_UTF8 = 1 } H5T_cset_t;
#define H5T_C_S1 ((hid_t)11)
#define H5T_NATIVE_INT ((hid_t)12)
#define H5T_NATIVE_DOUBLE ((hid_t)13)
#define H5I_INVALID_HID ((hid_t)-1)
#define H5E_DEFAULT ((hid_t)0)
typedef enum { H5F_SCOPE_LOCAL = 0, H5F_SCOPE_GLOBAL = 1 } H5F_scope_t;
hid_t H5Fopen(char const*, unsigned, hid_t);
hid_t H5Fcreate(char const*, unsigned, hid_t, hid_t);
herr_t H5Fclose(hid_t);
herr_t H5Fflush(hid_t, H5F_scope_t);
htri_t H5Fis_hdf5(char const*);
hid_t H5Screate(H5S_class_t);
hid_t H5Screate_simple(int, hsize_t const*, hsize_t const*);
herr_t H5Sclose(hid_t);
int H5Sget_simple_extent_ndims(hid_t);
int H5Sget_simple_extent_dims(hid_t, hsize_t*, hsize_t*);
hssize_t H5Sget_simple_extent_npoints(hid_t);
hid_t H5Tcopy(hid_t);
herr_t H5Tset_size(hid_t, size_t);
herr_t H5Tset_cset(hid_t, H5T_cset_t);
herr_t H5Tclose(hid_t);
hid_t H5Acreate2(hid_t, char const*, hid_t, hid_t, hid_t, hid_t);
#define H5Acreate H5Acreate2
herr_t H5Awrite(hid_t, hid_t, void const*);
herr_t H5Aclose(hid_t);
htri_t H5Aexists(hid_t, char const*);
hid_t H5Dopen2(hid_t, char const*, hid_t);
#define H5Dopen H5Dopen2
hid_t H5Dget_space(hid_t);
hid_t H5Dget_type(hid_t);
herr_t H5Dread(hid_t, hid_t, hid_t, hid_t, hid_t, void*);
herr_t H5Dclose(hid_t);
htri_t H5Lexists(hid_t, char const*, hid_t);
herr_t H5open(void);
herr_t H5close(void);
herr_t H5Oclose(hid_t);
herr_t H5Gclose(hid_t);
#ifdef __cplusplus
}
#endif
