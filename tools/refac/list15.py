# results: taken over, compared, written (C22)
T = 'libkcommon/types.cpp'
IO = 'libkcommon/io.hpp'
R = {}
R['sv01_writelist'] = [(T, '''const void cluster_t::write(const std::string dirname) const {
''', '''template <typename V>
static void put_list(std::ofstream& f, const V& v, const size_t from,
        const size_t n) {
    f << "[";
    for (size_t i = 0; i < n; i++) {
        if (i)
            f << ",";
        f << v[from + i];
    }
    f << "]";
}

const void cluster_t::write(const std::string dirname) const {
'''), (T, '''    f << "size: [";
    for (size_t _k = 0; _k < k; _k++) {
        if (_k == 0)
            f << assignment_count[_k];
        else
            f << "," << assignment_count[_k];
    }
    f << "]";
''', '''    f << "size: ";
    put_list(f, assignment_count, 0, k);
'''), (T, '''    f << "\\ncluster: [";
    for (size_t row = 0; row < nrow; row++) {
        if (row == 0)
            f << assignments[row];
        else
            f << "," << assignments[row];
    }
    f << "]";
''', '''    f << "\\n" << "cluster: ";
    put_list(f, assignments, 0, nrow);
'''), (T, '''        if (row == 0)
            f << "[";
        else
            f << ",[";
        for (size_t col = 0; col < ncol; col++) {
            if (col == 0)
                f << centroids[row*ncol+col];
            else
                f << "," << centroids[row*ncol+col];
        }
        f << "]";
''', '''        if (row > 0)
            f << ",";
        put_list(f, centroids, row*ncol, ncol);
''')]
R['sv02_head'] = [(T, '''    f << "k: " << k << std::endl;
    f << "niter: " << iters << std::endl;
    f << "nsamples: " << nrow << std::endl;
    f << "dim: " << ncol << std::endl;
''', '''    f << "k: " << k << "\\nniter: " << iters << "\\n";
    f << "nsamples: " << nrow << '\\n' << "dim: " << ncol << "\\n";
''')]
R['sv03_computed'] = [(T, '''    std::copy(assignments_buf, assignments_buf + nrow, assignments.begin());
    std::copy(assignment_count_buf, assignment_count_buf + k,
            assignment_count.begin());
    this->centroids = centroids; // copy
''', '''    for (size_t row = 0; row < nrow; row++)
        assignments[row] = assignments_buf[row];
    for (size_t c = 0; c < k; c++)
        assignment_count[c] = assignment_count_buf[c];
    this->centroids.assign(centroids.begin(), centroids.end());
''')]
R['sv04_hier'] = [(T, '''    for (auto const& kv : centroids) {
        auto const& k = kv.first;
        auto const& v = kv.second;
        std::copy(v.cbegin(), v.cend(), &(this->centroids[id_map[k]*ncol]));
    }

    k = centroids.size();
''', '''    k = centroids.size();
    for (const auto& kv : centroids) {
        const size_t start = id_map[kv.first] * ncol;
        for (size_t col = 0; col < kv.second.size(); col++)
            this->centroids[start + col] = kv.second[col];
    }
''')]
R['sv05_remap'] = [('libkcommon/hclust_compactor.hpp', '''                for (size_t i = 0; i < counts.size(); i++) {
                    assert(counts[i] >= 0);

                    if (counts[i] > 0) {
                        id_map[i] = remapd_counts.size();
                        remapd_counts.push_back(counts[i]);
                    }
                }
''', '''                unsigned next = 0;
                for (size_t i = 0; i < counts.size(); i++) {
                    const T n = counts[i];
                    assert(n >= 0);
                    if (n == 0)
                        continue;
                    remapd_counts.push_back(n);
                    id_map[i] = next++;
                }
''')]
R['sv06_gmm'] = [(T, '''            std::vector<double> v(ncol*ncol);
            std::copy(dm->as_vector().begin(), dm->as_vector().end(), v.begin());
            cov_mats.push_back(v);
''', '''            cov_mats.push_back(dm->as_vector());
''')]
R['sv07_equal'] = [(T, '''    return (v_eq(this->assignments, other.assignments) &&
            v_eq(this->assignment_count, other.assignment_count) &&
            v_eq(this->centroids, other.centroids));
''', '''    if (!v_eq(centroids, other.centroids))
        return false;
    const bool same_rows = v_eq(assignments, other.assignments);
    return same_rows && v_eq(assignment_count, other.assignment_count);
''')]
R['sv08_binread'] = [(IO, '''            size_t nbytes = fread(&((*v)[0]), sizeof(T)*ncol*nrow, 1, f);
            if (nbytes != 1)
                throw io_exception("nbytes of input incorrect!");
''', '''            const size_t row_bytes = ncol * sizeof(T);
            const size_t nread = fread(v->data(), row_bytes * nrow, 1, f);
            if (nread < 1)
                throw io_exception("nbytes of input incorrect!");
''')]
R['sv09_store'] = [('libkcommon/io.cpp', '''    for(unsigned i = 0; i < nrow; i++) {
        if (count == numel) { break; }
        if (cluster_assignments[i] == id) {
#ifdef NDEBUG
            fwrite(&data[i*ncol],
                        (ncol*sizeof(double)), 1, f);
''', '''    for(size_t i = 0; i < nrow && count < numel; i++) {
        if (cluster_assignments[i] == id) {
#ifdef NDEBUG
            const double* row = data + i*ncol;
            fwrite(row, sizeof(double), ncol, f);
''')]
R['sv10_eqloop'] = [('libkcommon/util.hpp', '''    return (std::equal(&v1[0], &(v1[len]), &v2[0]));
''', '''    for (unsigned i = 0; i < len; i++) {
        if (!(v1[i] == v2[i]))
            return false;
    }
    return true;
''')]
