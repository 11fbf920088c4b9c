from list2 import R
R['t01_inner'] = [('libkcommon/util.hpp','''    double dist = 0;
    double diff;

    for (unsigned col = 0; col < size; col++) {
        diff = lhs[col] - rhs[col];
        dist += diff * diff;
    }
    return std::sqrt(dist);''','''    return std::sqrt(sqeucl_dist<T>(lhs, rhs, size));'''),('libkcommon/util.hpp','''const double eucl_dist(const T* lhs, const T* rhs,''','''const double sqeucl_dist(const T* lhs, const T* rhs,
        const unsigned size);

template <typename T>
const double eucl_dist(const T* lhs, const T* rhs,''')]
R['t02_cosptr'] = [('libkcommon/util.hpp','''    for (unsigned col = 0; col < size; col++) {
        T a = lhs[col];
        T b = rhs[col];

        numr += a*b;
        ldenom += a*a;
        rdenom += b*b;
    }
    return  1 - (numr / ((std::sqrt(ldenom)*std::sqrt(rdenom))));''','''    for (const T* end = lhs + size; lhs != end; ++lhs, ++rhs) {
        numr += (*lhs) * (*rhs);
        ldenom += (*lhs) * (*lhs);
        rdenom += (*rhs) * (*rhs);
    }
    const double denom = std::sqrt(ldenom) * std::sqrt(rdenom);
    return 1 - numr / denom;''')]
R['t03_taxi'] = [('libkcommon/util.hpp','''        dist += std::abs(lhs[col] - rhs[col]);''','''        const T d = lhs[col] - rhs[col];
        dist += d < 0 ? -d : d;''')]
R['t04_if'] = [('libkcommon/util.hpp','''    switch (dt) {
        case dist_t::EUCL:
            return eucl_dist<T>(arg0, arg1, len);
        case dist_t::COS:
            return cos_dist(arg0, arg1, len);
        case dist_t::TAXI:
            return taxi_dist(arg0, arg1, len);
        case dist_t::SQEUCL:
            return sqeucl_dist<T>(arg0, arg1, len);
        default:
            throw parameter_exception("Unknown distance metric\\n");
    }''','''    if (dt == dist_t::EUCL)
        return eucl_dist<T>(arg0, arg1, len);
    if (dt == dist_t::COS)
        return cos_dist(arg0, arg1, len);
    T ret;
    if (dt == dist_t::SQEUCL)
        ret = sqeucl_dist<T>(arg0, arg1, len);
    else if (dt == dist_t::TAXI)
        ret = taxi_dist(arg0, arg1, len);
    else
        throw parameter_exception("Unknown distance metric\\n");
    return ret;''')]
R['t05_names'] = [('libkcommon/util.cpp','''    if (dist_type == "eucl")
        return dist_t::EUCL;
    else if (dist_type == "cos")
        return dist_t::COS;
    else if (dist_type == "taxi")
        return dist_t::TAXI;
    else if (dist_type == "sqeucl")
        return dist_t::SQEUCL;
    else
        throw''','''    dist_t ret = dist_t::EUCL;
    if (!dist_type.compare("sqeucl"))
        ret = dist_t::SQEUCL;
    else if (dist_type.compare("cos") == 0)
        ret = dist_t::COS;
    else if (dist_type == "taxi")
        ret = dist_t::TAXI;
    else if (dist_type != "eucl")
        throw'''),('libkcommon/util.cpp','''"'taxi', 'sqeucl'. It is '") + dist_type + std::string("'"));''','''"'taxi', 'sqeucl'. It is '") + dist_type + std::string("'"));
    return ret;''')]
R['t06_fma'] = [('libkcommon/util.hpp','''    for (unsigned col = 0; col < size; col++) {
        diff = lhs[col] - rhs[col];
        dist += diff * diff;
    }
    return dist;''','''    unsigned col = 0;
    while (col < size) {
        diff = rhs[col] - lhs[col];
        dist = std::pow(diff, 2) + dist;
        ++col;
    }
    return dist;''')]
R['t07_driver'] = [('libman/kmeans_coordinator.hpp','''XX''','''YY''')]
del R['t07_driver']
