// Stand-in for the part of the ScalFMM API used by src/fmm_demag.h. ScalFMM is not available in
// this sandbox. The far field is not approximated: every potential is the exact sum
//     potential(target) = sum over sources of q / |r_target - r_source|
// Particles are spread over several leaves, in an order that differs from the insertion order,
// as a real octree does: the code under test must use the particle indexes.
#pragma once
#include <array>
#include <cmath>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <vector>
#include <omp.h>

typedef long long int FSize;

template <class FReal>
class FPoint
    {
    std::array<FReal, 3> d;
public:
    FPoint(FReal x = 0, FReal y = 0, FReal z = 0) : d{x, y, z} {}
    FReal getX() const { return d[0]; }
    FReal getY() const { return d[1]; }
    FReal getZ() const { return d[2]; }
    };

enum class FParticleType { FParticleTypeSource, FParticleTypeTarget };

template <class FReal, int P>
class FTypedRotationCell
    {
public:
    bool dirty = false;
    void resetToInitialState() { dirty = false; }
    };

template <class FReal>
class FP2PParticleContainerIndexed
    {
public:
    std::vector<FReal> x, y, z, q, pot;
    std::vector<FSize> index;
    FSize getNbParticles() const { return (FSize) index.size(); }
    const std::vector<FSize> &getIndexes() const { return index; }
    FReal *getPhysicalValues() { return q.data(); }
    const FReal *getPhysicalValues() const { return q.data(); }
    FReal *getPotentials() { return pot.data(); }
    const FReal *getPotentials() const { return pot.data(); }
    void push(const FPoint<FReal> &p, FSize i, FReal value)
        {
        x.push_back(p.getX()); y.push_back(p.getY()); z.push_back(p.getZ());
        index.push_back(i); q.push_back(value); pot.push_back(0);
        }
    };

template <class FReal, class Container>
class FTypedLeaf
    {
    Container src, tgt;
public:
    Container *getSrc() { return &src; }
    Container *getTargets() { return &tgt; }
    };

template <class FReal, class Cell, class Container, class Leaf>
class FOctree
    {
    FReal width;
    std::map<std::array<int, 3>, std::unique_ptr<Leaf>> leaves;
    std::list<Cell> cells;
    Leaf &leaf(const FPoint<FReal> &p)
        {
        std::array<int, 3> k;
        const FReal c[3] = {p.getZ(), p.getX(), p.getY()};
        for (int i = 0; i < 3; i++)
            {
            if (!(std::fabs(c[i]) <= 0.5 * width))
                {  // ScalFMM requires all the particles to lie within the box
                std::cerr << "FOctree: particle out of the box\n";
                std::abort();
                }
            k[i] = -(int) std::floor(4 * c[i] / width);
            }
        auto &l = leaves[k];
        if (!l) { l = std::make_unique<Leaf>(); cells.emplace_back(); }
        return *l;
        }
public:
    FOctree(int, int, FReal boxWidth, const FPoint<FReal> &) : width(boxWidth) {}
    void insert(const FPoint<FReal> &p, FParticleType type, FSize idx, FReal value = 0)
        {
        Leaf &l = leaf(p);
        if (type == FParticleType::FParticleTypeSource) l.getSrc()->push(p, idx, value);
        else l.getTargets()->push(p, idx, value);
        }
    void forEachLeaf(const std::function<void(Leaf *)> &f) { for (auto &l : leaves) f(l.second.get()); }
    void forEachCell(const std::function<void(Cell *)> &f) { for (auto &c : cells) f(&c); }
    };

template <class FReal, class Cell, class Container, int P>
class FRotationKernel
    {
public:
    FRotationKernel(int, FReal, const FPoint<FReal> &) {}
    };

template <class Octree, class Cell, class Container, class Kernel, class Leaf>
class FFmmAlgorithmThreadTsm
    {
    Octree *tree;
public:
    FFmmAlgorithmThreadTsm(Octree *t, Kernel *) : tree(t) {}
    void execute()
        {
        // Like ScalFMM, accumulate into the potentials already stored in the targets. A cell
        // that was not reset would make the real library double count the expansions.
        bool stale = false;
        tree->forEachCell([&stale](Cell *c) { stale = stale || c->dirty; c->dirty = true; });
        const double factor = stale ? 2.0 : 1.0;
        tree->forEachLeaf([this, factor](Leaf *lt)
            {
            Container &t = *lt->getTargets();
            tree->forEachLeaf([&t, factor](Leaf *ls)
                {
                Container &s = *ls->getSrc();
                for (FSize i = 0; i < t.getNbParticles(); i++)
                    {
                    double sum = 0;
                    for (FSize j = 0; j < s.getNbParticles(); j++)
                        {
                        const double dx = t.x[i] - s.x[j], dy = t.y[i] - s.y[j],
                                     dz = t.z[i] - s.z[j];
                        sum += s.q[j] / std::sqrt(dx * dx + dy * dy + dz * dz);
                        }
                    t.pot[i] += factor * sum;
                    }
                });
            });
        }
    };
