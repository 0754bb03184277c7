// Reads an input file with INIReader on every process and prints typed values: args are the file and the queries
// "<type><TAB>section<TAB>name<TAB>default".
#include <cstdio>
#include <exception>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include <mpi.h>

#include <inih/INIReader.hpp>

#include <iomanip>
#include <Kokkos_Core.hpp>

namespace {
std::string hex(std::string const& s)
{
    std::string o;
    char b[3];
    for (unsigned char c : s) {
        std::snprintf(b, sizeof b, "%02x", c);
        o += b;
    }
    return o;
}
template <class T>
std::string num(T v)
{
    std::ostringstream o;
    o << std::setprecision(17) << v;
    return o.str();
}
} // namespace

extern "C" int harness_main(int argc, char** argv)
{
    MPI_Init(&argc, &argv);
    int rc = 0;
    std::string out;
    try {
        INIReader const r(argv[1]);
        for (int i = 2; i < argc; ++i) {
            std::vector<std::string> q;
            std::stringstream ss(argv[i]);
            for (std::string p; std::getline(ss, p, '\t');) q.push_back(p);
            q.resize(4);
            std::string v;
            try {
                switch (q[0][0]) {
                case 's': v = "=" + hex(r.Get(q[1], q[2], q[3])); break;
                case 'i': v = "=" + num(r.GetInteger(q[1], q[2], std::stoi(q[3]))); break;
                case 'l': v = "=" + num(r.GetInteger(q[1], q[2], std::stol(q[3]))); break;
                case 'L': v = "=" + num(r.GetInteger(q[1], q[2], std::stoll(q[3]))); break;
                case 'u': v = "=" + num(r.GetInteger(q[1], q[2], static_cast<unsigned>(std::stoul(q[3])))); break;
                case 'U': v = "=" + num(r.GetInteger(q[1], q[2], std::stoul(q[3]))); break;
                case 'd': v = "=" + num(r.GetReal(q[1], q[2], std::stod(q[3]))); break;
                case 'f': v = "=" + num(r.GetReal(q[1], q[2], std::stof(q[3]))); break;
                case 'b': v = "=" + num(r.GetBoolean(q[1], q[2], q[3] == "1")); break;
                default: v = "?";
                }
            } catch (std::exception const&) {
                v = "!";
            }
            out += v + "\n";
        }
    } catch (std::exception const& e) {
        out = std::string("error: ") + e.what() + "\n";
        rc = 1;
    }
    std::cout << out << std::flush;
    MPI_Finalize();
    return rc;
}
