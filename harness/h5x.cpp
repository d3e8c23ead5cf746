// Prints the contents of an HDF5 file as JSON: attributes (numbers at full precision), datasets (type, dims) and,
// with a directory as second argument, every dataset's raw bytes (native type) to <dir>/<mangled name>.
#include <hdf5.h>
#include <cstdio>
#include <string>
#include <vector>
#include <cstring>
using std::string;
static string esc(const string &s) { string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static string attrs, dsets; static const char *dir = nullptr;
static herr_t attr(hid_t loc, const char *name, const H5A_info_t *, void *op)
{
	string path = *(string *) op; hid_t a = H5Aopen(loc, name, H5P_DEFAULT), t = H5Aget_type(a), s = H5Aget_space(a); hssize_t n = H5Sget_simple_extent_npoints(s); string v;
	if (H5Tget_class(t) == H5T_STRING) {
		if (H5Tis_variable_str(t)) { char *c = nullptr; H5Aread(a, t, &c); v = esc(c ? c : ""); }
		else { std::vector<char> b(H5Tget_size(t)*(n > 0 ? n : 1)+1, 0); H5Aread(a, t, b.data()); v = esc(string(b.data())); }
	} else if (H5Tget_class(t) == H5T_INTEGER) {
		std::vector<long long> b(n > 0 ? n : 1); H5Aread(a, H5T_NATIVE_LLONG, b.data()); v = n == 1 ? "" : "["; for (hssize_t i = 0; i < n; i++) v += (i ? "," : "") + std::to_string(b[i]); if (n != 1) v += "]";
	} else if (H5Tget_class(t) == H5T_FLOAT) {
		std::vector<double> b(n > 0 ? n : 1); H5Aread(a, H5T_NATIVE_DOUBLE, b.data()); v = n == 1 ? "" : "["; for (hssize_t i = 0; i < n; i++) { char c[64]; snprintf(c, 64, b[i] != b[i] ? "NaN" : b[i] > 1e308*10 ? "Infinity" : b[i] < -1e308*10 ? "-Infinity" : "%.17g", b[i]); v += (i ? "," : "") + string(c); } if (n != 1) v += "]";
	} else v = "null";
	attrs += (attrs.size() ? ",\n" : "") + esc(path + "@" + name) + ":" + v; H5Sclose(s); H5Tclose(t); H5Aclose(a); return 0;
}
static herr_t obj(hid_t loc, const char *name, const H5O_info_t *info, void *)
{
	string path = string("/") + (strcmp(name, ".") ? name : ""); hid_t o = H5Oopen(loc, name, H5P_DEFAULT); H5Aiterate2(o, H5_INDEX_NAME, H5_ITER_INC, nullptr, attr, &path);
	if (info->type == H5O_TYPE_DATASET) {
		hid_t t = H5Dget_type(o), nt = H5Tget_native_type(t, H5T_DIR_ASCEND), s = H5Dget_space(o); int nd = H5Sget_simple_extent_ndims(s); hsize_t d[32] = {0}; H5Sget_simple_extent_dims(s, d, nullptr);
		string dim; for (int i = 0; i < nd; i++) dim += (i ? "," : "") + std::to_string(d[i]);
		const char *cl = H5Tget_class(t) == H5T_FLOAT ? "f" : H5Tget_class(t) == H5T_INTEGER ? (H5Tget_sign(t) == H5T_SGN_NONE ? "u" : "i") : "x";
		string m = path; for (auto &c : m) if (c == '/' || c == ' ') c = '_';
		dsets += (dsets.size() ? ",\n" : "") + esc(path) + ":{\"dtype\":\"" + cl + std::to_string(H5Tget_size(t)) + "\",\"dims\":[" + dim + "],\"file\":" + esc(m) + "}";
		if (dir) { size_t n = H5Sget_simple_extent_npoints(s)*H5Tget_size(nt); std::vector<char> b(n+1); if (n && H5Dread(o, nt, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data()) < 0) return -1; FILE *f = fopen((string(dir) + "/" + m).c_str(), "wb"); fwrite(b.data(), 1, n, f); fclose(f); }
		H5Sclose(s); H5Tclose(nt); H5Tclose(t);
	}
	H5Oclose(o); return 0;
}
int main(int c, char **v)
{
	H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); if (c > 2) dir = v[2];
	hid_t f = H5Fopen(v[1], H5F_ACC_RDONLY, H5P_DEFAULT); if (f < 0) { fprintf(stderr, "cannot open\n"); return 2; }
	if (H5Ovisit(f, H5_INDEX_NAME, H5_ITER_INC, obj, nullptr) < 0) { fprintf(stderr, "cannot read\n"); return 3; }
	printf("{\"attrs\":{\n%s\n},\"dsets\":{\n%s\n}}\n", attrs.c_str(), dsets.c_str()); H5Fclose(f); return 0;
}
