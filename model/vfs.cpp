// Model of the file system functions the code uses besides MPI-IO: output streams create (empty) files, std::filesystem, polling with sleep.
#include <ctime>
#include <filesystem>
#include <string>
#include <vector>
extern "C" {
void vf_yield(); int vmpi_file_exists(const char*); long vmpi_file_size(const char*); void vmpi_file_create(const char*); int vmpi_file_remove(const char*); int vmpi_file_count(); const char* vmpi_file_name(int);
void vfm__ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode(void*, const std::string* n, int) { vmpi_file_create(n->c_str()); }
void vfm__ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode(void*, const char* n, int) { vmpi_file_create(n); }
int vfm_nanosleep(const struct timespec*, struct timespec*) { vf_yield(); return 0; }
int vfm_remove(const char* n) { return vmpi_file_remove(n) ? 0 : -1; }
}
static const char* plain(const std::string& s) { return s.size() > 2 && s[0] == '.' && s[1] == '/' ? s.c_str() + 2 : s.c_str(); }
namespace std { namespace filesystem {
void path::_M_split_cmpts() {}
path::_List::_List() {}
path::_List::_List(const _List&) {}
path::_List& path::_List::operator=(const _List&) { return *this; }
void path::_List::_Impl_deleter::operator()(_Impl*) const noexcept {}
file_status status(const path& p) { return file_status(vmpi_file_exists(plain(p.native())) ? file_type::regular : file_type::not_found, perms::all); }
file_status status(const path& p, error_code& e) noexcept { e.clear(); return status(p); }
file_status symlink_status(const path& p) { return status(p); }
file_status symlink_status(const path& p, error_code& e) noexcept { e.clear(); return status(p); }
bool remove(const path& p) { return vmpi_file_remove(plain(p.native())); }
bool remove(const path& p, error_code& e) noexcept { e.clear(); return remove(p); }
uintmax_t file_size(const path& p) { return (uintmax_t)vmpi_file_size(plain(p.native())); }
inline namespace __cxx11 { struct _Dir { vector<directory_entry> v; size_t i = 0; }; }
directory_iterator::directory_iterator(const path& p, directory_options, error_code* e) {
  if (e) e->clear(); _M_dir = std::__make_shared<_Dir>();
  for (int i = 0; i < vmpi_file_count(); ++i) if (const char* n = vmpi_file_name(i)) { std::string s("./"); s += n; _M_dir->v.push_back(directory_entry(path(s))); }
  if (_M_dir->v.empty()) _M_dir.reset();
}
const directory_entry& directory_iterator::operator*() const noexcept { return _M_dir->v[_M_dir->i]; }
directory_iterator& directory_iterator::operator++() { if (++_M_dir->i == _M_dir->v.size()) _M_dir.reset(); return *this; }
} }
