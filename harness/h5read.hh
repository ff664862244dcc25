// Reads an HDF5 file back through the C interface.
#ifndef VERIF_H5READ_HH
#define VERIF_H5READ_HH
#include <hdf5.h>
#include <map>
#include <string>
#include <vector>

struct Table
{
    std::vector<hsize_t> dims;
    std::vector<double> v;
    size_t rows() const { return dims.empty() ? 0 : dims[0]; }
    size_t cols() const { return dims.size() < 2 ? 1 : dims[1]; }
};

struct H5Content
{
    std::map<std::string, Table> sets;
    std::vector<std::string> groups;
    bool ok = false;
    std::string error;
    const Table* find(const std::string& p) const
    {
        auto i = sets.find(p);
        return i == sets.end() ? nullptr : &i->second;
    }
};

inline herr_t h5Visit(hid_t obj, const char* name, const H5O_info_t* info, void* data)
{
    H5Content* c = (H5Content*)data;
    std::string path = name;
    if (info->type == H5O_TYPE_GROUP)
    {
        if (path != ".") c->groups.push_back(path);
        return 0;
    }
    if (info->type != H5O_TYPE_DATASET) return 0;
    hid_t d = H5Dopen2(obj, name, H5P_DEFAULT);
    if (d < 0) { c->error = "cannot open dataset " + path; return -1; }
    hid_t s = H5Dget_space(d);
    Table t;
    int n = H5Sget_simple_extent_ndims(s);
    t.dims.resize(n < 0 ? 0 : n);
    H5Sget_simple_extent_dims(s, t.dims.data(), nullptr);
    hsize_t total = 1;
    for (hsize_t x : t.dims) total *= x;
    t.v.resize(total);
    herr_t r = 0;
    if (total) r = H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, t.v.data());
    H5Sclose(s);
    H5Dclose(d);
    if (r < 0) { c->error = "cannot read dataset " + path; return -1; }
    c->sets[path] = t;
    return 0;
}

inline H5Content h5Read(const std::string& file)
{
    H5Content c;
    H5E_auto2_t f;
    void* p;
    H5Eget_auto2(H5E_DEFAULT, &f, &p);
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    hid_t h = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    if (h < 0) c.error = "cannot open " + file;
    else
    {
        herr_t r = H5Ovisit(h, H5_INDEX_NAME, H5_ITER_NATIVE, h5Visit, &c);
        c.ok = r >= 0 && c.error.empty();
        if (r < 0 && c.error.empty()) c.error = "cannot walk " + file;
        H5Fclose(h);
    }
    H5Eset_auto2(H5E_DEFAULT, f, p);
    return c;
}
#endif
