# matrix operations (C31)
L = 'libkcommon/linalg.hpp'
D = 'libkcommon/dense_matrix.hpp'
R = {}
R['u01_cofskip'] = [(L, '''                    if (row != p && col != q) {
                        temp[(i*N)+j++] = A[row*N+col];

                        // Row is filled, so increase row index and
                        // reset col index
                        if (j == n - 1) {
                            j = 0;
                            i++;
                        }
                    }
''', '''                    if (row == p || col == q)
                        continue;
                    temp[i*N+j] = A[col+N*row];
                    ++j;
                    if (j == n - 1) {
                        ++i;
                        j = 0;
                    }
''')]
R['u02_detwhile'] = [(L, '''            for (size_t f = 0; f < n; f++) {
                // Getting Cofactor of A[0][f]
                getCofactor(A, &temp[0], 0, f, n, N);
                D += sign * A[f] * determinant(&temp[0], n - 1, N);

                // terms are to be added with alternate sign
                sign = -sign;
            }
''', '''            size_t f = 0;
            while (f < n) {
                getCofactor(A, temp.data(), 0, f, n, N);
                const double minor = determinant(temp.data(), n - 1, N);
                D += A[f] * minor * sign;
                sign *= -1;
                f++;
            }
''')]
R['u03_norms'] = [(L, '''            T sum = 0;
            for (size_t i = 0; i < size; i++)
                sum += v[i] * v[i];

            return std::sqrt(sum);
''', '''            T ss = 0;
            for (const T* p = v; p != v + size; p++)
                ss += *p * *p;
            return std::sqrt(ss);
'''), (D, '''        T sum = 0;
        for (size_t i = 0; i < nrow*ncol; i++)
            sum += mat[i]*mat[i];
        return std::sqrt(sum);
''', '''        T sum = 0;
        for (size_t r = 0; r < nrow; r++)
            for (size_t k = 0; k < ncol; k++)
                sum += mat[r*ncol+k]*mat[r*ncol+k];
        return std::sqrt(sum);
''')]
R['u04_elementwise'] = [(D, '''        for (size_t i = 0; i < nrow*ncol; i++)
            rp[i] = mat[i] - otherp[i];
        return res;
''', '''        size_t i = 0;
        const size_t n = nrow*ncol;
        while (i != n) {
            rp[i] = mat[i];
            rp[i] -= otherp[i];
            i++;
        }
        return res;
'''), (D, '''        for (size_t i = 0; i < nrow*ncol; i++)
            rp[i] = mat[i] + otherp[i];
        return res;
''', '''        for (size_t r = 0; r < nrow; r++)
            for (size_t k = 0; k < ncol; k++)
                res->set(r, k, get(r, k) + other.get(r, k));
        return res;
'''), (D, '''            mat[i] += otherp[i];
''', '''            mat[i] = otherp[i] + mat[i];
''')]
R['u05_product'] = [(D, '''                    rp[lrow*other.get_ncol()+rcol] +=
                        mat[lrow*ncol+rrow] *
                        other.get(rrow, rcol);
''', '''                    const T l = get(lrow, rrow);
                    res->peq(lrow, rcol, other.get(rrow, rcol) * l);
''')]
R['u06_mean'] = [(D, '''        if (dim == 1) {
            mean.assign(ncol, 0);
            for (size_t row = 0; row < nrow; row++) {
                for (size_t col = 0; col < ncol; col++) {
                    mean[col] += mat[row*ncol+col];
                }
            }

            for (size_t i = 0; i < mean.size(); i++)
                mean[i] /= (double)nrow;
        } else if (dim == 0) {
''', '''        if (dim == 1) {
            mean.resize(ncol);
            std::fill(mean.begin(), mean.end(), 0);
            for (size_t col = 0; col < ncol; col++) {
                for (size_t row = 0; row < nrow; row++) {
                    mean[col] += get(row, col);
                }
            }
            const double n = nrow;
            for (auto& v : mean)
                v = v / n;
        } else if (dim == 0) {
''')]
R['u07_sumaxis'] = [(D, '''            res.resize(ncol);
            std::copy(mat.begin(), mat.begin()+ncol, res.begin());

            // TODO: Bottleneck
            for (size_t row = 1; row < nrow; row++) {
''', '''            res.assign(ncol, 0);
            for (size_t row = 0; row < nrow; row++) {
'''), (D, '''        if (axis == 0) {
            // Copy the first row
''', '''        if (!axis) {
            // Copy the first row
''') ]
R['u07_sumaxis'] = R['u07_sumaxis'][:1]
R['u08_divaxis'] = [(D, '''        if (axis == 0 && v.size() == ncol) {
            for (size_t row = 0; row < nrow; row++) {
                for (size_t col = 0; col < ncol; col++) {
                    mat[row*ncol+col] /= v[col];
                }
            }
        } else if (axis == 1 && v.size() == nrow) {
            for (size_t row = 0; row < nrow; row++) {
                for (size_t col = 0; col < ncol; col++) {
                    mat[row*ncol+col] /= v[row];
                }
            }
        } else {
            throw std::runtime_error("Vector division must have size = nrow/ncol");
        }
    }
''', '''        const bool cols = axis == 0 && v.size() == ncol;
        const bool rows = axis == 1 && v.size() == nrow;
        if (!cols && !rows)
            throw std::runtime_error("Vector division must have size = nrow/ncol");
        for (size_t row = 0; row < nrow; row++) {
            for (size_t col = 0; col < ncol; col++) {
                mat[row*ncol+col] /= v[cols ? col : row];
            }
        }
    }
''')]
R['u09_argmax'] = [(D, '''                    T val = mat[row*ncol+col];
                    if (val > vals[row]) {
                        vals[row] = val;
                        idx[row] = col;
                    }
''', '''                    if (!(get(row, col) <= vals[row])) {
                        idx[row] = col;
                        vals[row] = get(row, col);
                    }
''')]
R['u09_argmax'] = [(D, '''                    T val = mat[row*ncol+col];
                    if (val > vals[row]) {
                        vals[row] = val;
                        idx[row] = col;
                    }
''', '''                    if (vals[row] < get(row, col)) {
                        idx[row] = col;
                        vals[row] = get(row, col);
                    }
''')]
R['u10_equal'] = [(D, '''        if (nrow != other.get_nrow() || ncol != other.get_ncol())
            return false;

        for (size_t i = 0; i < ncol*nrow; i++) {
            if (mat[i] != other.as_pointer()[i])
                return false;
        }
        return true;
''', '''        if (nrow != other.nrow)
            return false;
        if (ncol != other.ncol)
            return false;
        const T* o = &other.mat[0];
        for (size_t i = 0; i < nrow*ncol; ++i)
            if (!(o[i] == mat[i]))
                return false;
        return true;
''')]
R['u11_scale'] = [(L, '''            double sum = std::accumulate(v, v+sz, 0.0);
            double mean = sum / static_cast<double>(sz);
''', '''            double total = 0;
            for (size_t i = 0; i < sz; i++)
                total += v[i];
            const double mean = total / static_cast<double>(sz);
'''), (L, '''                double tmp = v[i] - mean;
                stddev += tmp * tmp;
''', '''                stddev += (mean - v[i]) * (mean - v[i]);
''')]
R['u12_vectors'] = [(L, '''            if (res.size() == 0) {
                for (auto const& val : v)
                    res.push_back(val*factor);
            } else {
                for (size_t i = 0; i < v.size(); i++)
                    res[i] = v[i]*factor;
            }
''', '''            if (res.empty())
                res.resize(v.size());
            for (size_t i = 0; i < v.size(); i++)
                res[i] = factor*v[i];
'''), (L, '''            if (!res.size()) res.resize(size);

            for (size_t i = 0; i < size; i++)
                res[i] = left[i] - right[i];
''', '''            if (res.empty()) res.resize(size);
            const double* r = right;
            for (size_t i = 0; i < size; i++, r++)
                res[i] = left[i] - *r;
''')]
R['u13_adjsign'] = [(L, '''                    double sign = ((i+j) % 2 == 0) ? 1 : -1;
''', '''                    double sign = 1;
                    if ((i+j) % 2 != 0)
                        sign = -1;
'''), (L, '''                    adj[j*N+i] = (sign)*(determinant(&temp[0], N-1, N));
''', '''                    const double d = determinant(&temp[0], N-1, N);
                    adj[i+j*N] = d * sign;
''')]
R['u14_inverse'] = [(L, '''            for (size_t i=0; i<N; i++)
                for (size_t j=0; j<N; j++)
                    inverse[i*N+j] = adj[i*N+j]/det;

            return true;
''', '''            double* out = inverse;
            for (size_t i=0; i<N*N; i++)
                out[i] = adj[i]/det;
            return true;
'''), (L, '''            if (det == 0) {
                printf("Singular matrix, can't find its inverse\\n");
                return false;
            }
''', '''            if (!det) {
                printf("Singular matrix, can't find its inverse\\n");
                return false;
            }
''')]
R['u15_accessors'] = [(D, '''        return mat[row*ncol+col];
    }

    void set(''', '''        const size_t at = col + ncol*row;
        return mat[at];
    }

    void set('''), (D, '''        mat[row*ncol+col] += val;
    }
''', '''        T& e = mat[row*ncol+col];
        e = e + val;
    }
'''), (D, '''        std::fill(mat.begin(), mat.end(), 0);
''', '''        for (T& e : mat)
            e = 0;
''')]
R['u16_copyrow'] = [(D, '''        std::copy(&(d[0]), &(d[ncol]), &(mat[rid*ncol]));
''', '''        T* row = as_pointer() + rid*ncol;
        for (size_t col = 0; col < ncol; col++)
            row[col] = d[col];
'''), (D, '''        std::copy(&(d[0]), &(d[nrow*ncol]), mat.begin());
''', '''        for (size_t i = 0; i < nrow*ncol; i++)
            mat[i] = d[i];
'''), (D, '''        std::copy(dm->as_pointer(),
                dm->as_pointer()+(dm->get_nrow()*dm->get_ncol()),
                mat.begin());
''', '''        for (size_t i = 0; i < nrow*ncol; i++)
            mat[i] = dm->mat[i];
''')]
