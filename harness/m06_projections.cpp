// M06: projections send the corners of their view volume to the corners of the clip cube.
#include "math_values.hpp"
#include <xme/math/matrix.hpp>
#include <sstream>

namespace m = xme::math;

#ifdef XME_MATH_CLIP_LH
constexpr bool default_lh = true;
#else
constexpr bool default_lh = false;
#endif

template<typename T>
struct Volume {
    T left, right, bottom, top, near_, far_;
};

template<typename T>
T coordinate(Case& c) {
    switch(c.draw(3)) {
    case 0: return static_cast<T>(c.range(-10, 10));
    case 1: return static_cast<T>(c.range(-80, 80)) / T(8);
    default: return num::real<T>(c, 4);
    }
}

//! The image of (x, y, z, 1), and what its computation may be off by
template<typename T>
void corner(const m::Matrix<T, 4, 4>& p, ld x, ld y, ld z, ld wx, ld wy, ld wz, const std::string& what, ld k) {
    const ld in[4] = {x, y, z, 1};
    ld out[4] = {}, size[4] = {};
    for(std::size_t r = 0; r < 4; ++r)
        for(std::size_t i = 0; i < 4; ++i) {
            out[r] += static_cast<ld>(p[i][r]) * in[i];
            size[r] += std::abs(static_cast<ld>(p[i][r]) * in[i]);
        }
    CHECK(out[3] > 0, what << ": w of (" << x << ", " << y << ", " << z << ") is " << out[3]);
    const ld want[3] = {wx, wy, wz};
    for(std::size_t r = 0; r < 3; ++r) {
        const ld got = out[r] / out[3], eps = static_cast<ld>(std::numeric_limits<T>::epsilon());
        CHECK(std::abs(got - want[r]) <= k * eps * (1 + size[r] / out[3]),
              what << ": (" << x << ", " << y << ", " << z << ") goes to " << "xyz"[r] << " = " << got << " instead of " << want[r]);
    }
}

template<typename T>
void corners(const m::Matrix<T, 4, 4>& p, bool lh, bool perspective, const ld (&v)[6], const std::string& what, ld k) {
    for(int i = 0; i < 8; ++i) {
        const bool right = i & 1, top = i & 2, far = i & 4;
        const ld depth = far ? v[5] : v[4];
        const ld f     = perspective ? depth / v[4] : 1;
        corner(p, (right ? v[1] : v[0]) * f, (top ? v[3] : v[2]) * f, lh ? depth : -depth, right ? 1 : -1, top ? 1 : -1,
               far ? 1 : -1, what, k);
    }
}

template<typename T>
std::string numbers(std::initializer_list<T> l) {
    std::ostringstream o;
    o.precision(21);
    const char* sep = "(";
    for(T x : l)
        o << sep << x, sep = ", ";
    o << ')';
    return o.str();
}

template<typename T>
void project(Case& c) {
    T l = coordinate<T>(c), b = coordinate<T>(c);
    const T w = num::positive<T>(c, 3), h = num::positive<T>(c, 3);
    T r = l + w, t = b + h;
    if(c.draw(3) == 0)  // symmetric
        r = w, l = -w, t = h, b = -h;
    T n = num::positive<T>(c, 3);
    const T f = n + num::positive<T>(c, 5);
    if(!(l < r && b < t && n < f))
        return;
    // the frustum or the box
    {
        const ld v[6]          = {l, r, b, t, n, f};
        const std::string args = numbers({l, r, b, t, n, f});
        LOG("planes " << args);
        corners(m::perspective_lh(l, r, b, t, n, f), true, true, v, "perspective_lh" + args, 16);
        corners(m::perspective_rh(l, r, b, t, n, f), false, true, v, "perspective_rh" + args, 16);
        corners(m::perspective(l, r, b, t, n, f), default_lh, true, v, "perspective" + args, 16);
        corners(m::ortho_lh(l, r, b, t, n, f), true, false, v, "ortho_lh" + args, 16);
        corners(m::ortho_rh(l, r, b, t, n, f), false, false, v, "ortho_rh" + args, 16);
        corners(m::ortho(l, r, b, t, n, f), default_lh, false, v, "ortho" + args, 16);
    }
    // an orthographic volume may also start behind or at the eye
    {
        const T n2 = coordinate<T>(c), f2 = n2 + num::positive<T>(c, 3);
        if(n2 < f2) {
            const ld v[6]          = {l, r, b, t, n2, f2};
            const std::string args = numbers({l, r, b, t, n2, f2});
            LOG("box " << args);
            corners(m::ortho_lh(l, r, b, t, n2, f2), true, false, v, "ortho_lh" + args, 16);
            corners(m::ortho_rh(l, r, b, t, n2, f2), false, false, v, "ortho_rh" + args, 16);
            corners(m::ortho(l, r, b, t, n2, f2), default_lh, false, v, "ortho" + args, 16);
        }
    }
    // a field of view and a ratio of width to height
    {
        const T fov = num::in<T>(c, T(0.1), T(2.8)), ratio = num::positive<T>(c, 2);
        const ld top           = static_cast<ld>(n) * std::tan(static_cast<ld>(fov) / 2);
        const ld right         = top * static_cast<ld>(ratio);
        const ld v[6]          = {-right, right, -top, top, n, f};
        const std::string args = numbers({fov, ratio, n, f});
        LOG("field of view " << args);
        corners(m::perspective_lh(fov, ratio, n, f), true, true, v, "perspective_lh" + args, 48);
        corners(m::perspective_rh(fov, ratio, n, f), false, true, v, "perspective_rh" + args, 48);
        corners(m::perspective(fov, ratio, n, f), default_lh, true, v, "perspective" + args, 48);
        static_assert(std::is_same_v<decltype(m::perspective(fov, ratio, n, f)), m::Matrix<T, 4, 4>>);
    }
    if(l + r != 0 && b + t != 0)
        c.nontrivial();
    c.label(type_name<T>());
}
SUB_T(projections_float, (project<float>), 20000, 1000000);
SUB_T(projections_double, (project<double>), 20000, 1000000);
SUB_T(projections_ldouble, (project<long double>), 10000, 300000);
