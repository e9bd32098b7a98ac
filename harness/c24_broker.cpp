// The broker of the third level (third_level_manager), without its command line.
#include <boost/asio.hpp>
#define main vf_broker_main
#include "../third_level_manager/thirdLevelManager.cpp"
#undef main
extern size_t vf_broker_chunk; extern unsigned vf_broker_systems;
Params::Params() {}
bool Params::areLoaded() const { return true; }
u_short Params::getPort() const { return 9999; }
u_int Params::getNumSystems() const { return vf_broker_systems; }
size_t Params::getChunksize() const { return vf_broker_chunk; }
void Params::loadFromFile(const std::string&) {}
void Params::loadFromCmd(int, char**) {}
void vf_broker() { Params p; combigrid::ThirdLevelManager m(p); m.init(); m.runtimeLoop(); m.writeStatistics(""); }
