// Reference linear algebra in double precision.
#pragma once
#include <vector>
#include <cmath>
#include <algorithm>
namespace la {
typedef std::vector<std::vector<double>> Mat;
// solves A x = b by Gaussian elimination with full row pivoting; false when (nearly) singular
inline bool solve(Mat A, std::vector<double> b, std::vector<double>& x) {
    int n = b.size(); x.assign(n, 0);
    for(int c = 0; c < n; c++) {
        int p = c; for(int r = c; r < n; r++) if(fabs(A[r][c]) > fabs(A[p][c])) p = r;
        if(fabs(A[p][c]) < 1e-7) return false;
        std::swap(A[p], A[c]); std::swap(b[p], b[c]);
        for(int r = c + 1; r < n; r++) { double f = A[r][c] / A[c][c]; for(int k = c; k < n; k++) A[r][k] -= f * A[c][k]; b[r] -= f * b[c]; }
    }
    for(int r = n - 1; r >= 0; r--) { double s = b[r]; for(int k = r + 1; k < n; k++) s -= A[r][k] * x[k]; x[r] = s / A[r][r]; }
    return true;
}
inline Mat invert(const Mat& A, bool& ok) { int n = A.size(); Mat R(n, std::vector<double>(n)); ok = true; for(int c = 0; c < n; c++) { std::vector<double> e(n, 0), x; e[c] = 1; if(!solve(A, e, x)) { ok = false; return R; } for(int r = 0; r < n; r++) R[r][c] = x[r]; } return R; }
// eigen decomposition of a symmetric matrix (cyclic Jacobi): A = V diag(w) V^T
inline void eig(Mat A, std::vector<double>& w, Mat& V) {
    int n = A.size(); V.assign(n, std::vector<double>(n, 0)); for(int i = 0; i < n; i++) V[i][i] = 1;
    for(int it = 0; it < 100; it++) {
        double off = 0; for(int i = 0; i < n; i++) for(int j = 0; j < i; j++) off += A[i][j] * A[i][j]; if(off < 1e-26) break;
        for(int p = 0; p < n; p++) for(int q = p + 1; q < n; q++) {
            if(fabs(A[p][q]) < 1e-300) continue; double th = (A[q][q] - A[p][p]) / (2 * A[p][q]), t = (th >= 0 ? 1 : -1) / (fabs(th) + sqrt(th * th + 1)), c = 1 / sqrt(t * t + 1), s = t * c;
            for(int k = 0; k < n; k++) { double a = A[k][p], b = A[k][q]; A[k][p] = c * a - s * b; A[k][q] = s * a + c * b; }
            for(int k = 0; k < n; k++) { double a = A[p][k], b = A[q][k]; A[p][k] = c * a - s * b; A[q][k] = s * a + c * b; }
            for(int k = 0; k < n; k++) { double a = V[k][p], b = V[k][q]; V[k][p] = c * a - s * b; V[k][q] = s * a + c * b; }
        }
    }
    w.resize(n); for(int i = 0; i < n; i++) w[i] = A[i][i];
}
} // namespace la
