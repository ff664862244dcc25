// Prints {"groups": [...], "sets": {path: {"dims": [...], "data": [...]}}}.
#include "h5read.hh"
#include <cmath>
#include <cstdio>
int main(int argc, char** argv)
{
    if (argc < 2) return 2;
    H5Content c = h5Read(argv[1]);
    if (!c.ok) { fprintf(stderr, "%s\n", c.error.c_str()); return 1; }
    printf("{\"groups\": [");
    for (size_t i = 0; i < c.groups.size(); i++) printf("%s\"%s\"", i ? ", " : "", c.groups[i].c_str());
    printf("],\n\"sets\": {");
    bool first = true;
    for (auto& s : c.sets)
    {
        printf("%s\n\"%s\": {\"dims\": [", first ? "" : ",", s.first.c_str());
        for (size_t i = 0; i < s.second.dims.size(); i++) printf("%s%llu", i ? ", " : "", (unsigned long long)s.second.dims[i]);
        printf("], \"data\": [");
        for (size_t i = 0; i < s.second.v.size(); i++)
        {
            double v = s.second.v[i];
            if (std::isfinite(v)) printf("%s%.17g", i ? "," : "", v);
            else printf("%s%s", i ? "," : "", std::isnan(v) ? "NaN" : v > 0 ? "Infinity" : "-Infinity");
        }
        printf("]}");
        first = false;
    }
    printf("}}\n");
    return 0;
}
