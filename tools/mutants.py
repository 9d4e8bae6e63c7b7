#!/usr/bin/env python3
"""mutants.py [ids...]: small changes of single lines (most of them lines added by this
repository's own fix: commits), each with the property whose quick check is run against it,
in a namespace where /repo is a patched copy.  Prints one line per mutant."""
import os, subprocess, sys, tempfile, shutil, re
C = 'hermipy/cache.py'; D = 'cpp/src/hermite/discretize.cpp'; H = 'cpp/src/hermite/'; ST = 'hermipy/stats.py'
CO = 'hermipy/core.py'; SE = 'hermipy/series.py'; Q = 'hermipy/quad.py'; PY = H + 'python/converters.cpp'
SAVE = """            with open(tmpfile, 'xb') as stream:
                save(stream, result)
                stream.flush()
                os.fsync(stream.fileno())
            os.replace(tmpfile, filename)
"""
THROW = '        throw invalid_argument("Sizes of the arguments do not match");\n'
M = [
 ('nofsync', 'C03', [(C, "                os.fsync(stream.fileno())\n", "")]),
 ('noflush', 'C03', [(C, "                stream.flush()\n", "")]),
 ('direct', 'C03', [(C, SAVE, "            with open(filename, 'wb') as stream:\n                save(stream, result)\n                stream.flush()\n                os.fsync(stream.fileno())\n")]),
 ('renamefirst', 'C03', [(C, SAVE, "            stream = open(tmpfile, 'xb')\n            save(stream, result)\n            os.replace(tmpfile, filename)\n            stream.flush()\n            os.fsync(stream.fileno())\n            stream.close()\n")]),
 ('pid', 'C04', [(C, "uuid.uuid4().hex", "str(os.getpid())")]),
 ('pid13', 'C13', [(C, "uuid.uuid4().hex", "str(os.getpid())")]),
 ('tmpname', 'C04', [(C, "'.' + uuid.uuid4().hex", "'.tmp'"), (C, "'xb'", "'wb'")]),
 ('time', 'C04', [(C, "uuid.uuid4().hex", "str(os.getpid()) + str(__import__('time').time())")]),
 ('random', 'C04', [(C, "uuid.uuid4().hex", "str(np.random.RandomState(os.getpid()).randint(1 << 30))")]),
 ('oserror', 'C03', [(C, "                except Exception:\n                    # An", "                except OSError:\n                    # An"), ]),
 ('oserror5', 'C05', [(C, "                except Exception:\n                    # An", "                except ValueError:\n                    # An"), ]),
 ('isdir', 'C04', [(C, "                os.makedirs(cachedir, exist_ok=True)\n", "                if not os.path.isdir(cachedir):\n                    os.makedirs(cachedir)\n")]),
 ('storeoff', 'C06', [(C, "if settings['cache'] and storable(result):", "if storable(result):")]),
 ('or', 'C06', [(C, "use_cache = kwargs['cache']", "use_cache = use_cache or kwargs['cache']")]),
 ('usecache', 'C06', [(C, "                    if use_cache:\n", "                    if use_cache or settings['cache']:\n")]),
 ('nan', 'C06', [(C, "differ = (u != v) & ((u == u) | (v == v))", "differ = u != v")]),
 ('inf', 'C06', [(C, "return la.norm(u[differ] - v[differ], 2)", "return la.norm(u - v)")]),
 ('tolerance', 'C06', [(C, "error < 1e-10", "error < 1e-1")]),
 ('dtype', 'C01', [(C, "str(argument.dtype) + str(argument.shape)", "str(argument.shape)")]),
 ('shape', 'C01', [(C, "str(argument.dtype) + str(argument.shape)\n                          + content", "str(argument.dtype) + content")]),
 ('kweq', 'C01', [(C, "'=' + hash_fun(kw)", "hash_fun(kw)")]),
 ('kwname', 'C01', [(C, "                hashes.append('=' + hash_fun(kw))\n", "")]),
 ('module', 'C01', [(C, "hash_fun([function.__module__,\n                                    function.__qualname__])", "hash_fun([function.__qualname__])")]),
 ('qualname', 'C01', [(C, "function.__qualname__", "function.__name__")]),
 ('csrshape', 'C01', [(C, "[a.data, a.indices, a.indptr, a.shape]", "[a.data, a.indices, a.indptr]")]),
 ('csrindptr', 'C01', [(C, "[a.data, a.indices, a.indptr, a.shape]", "[a.data, a.indices, a.shape]")]),
 ('strkind', 'C01', [(C, "digest('str', argument)", "digest('number', argument)")]),
 ('nonekind', 'C01', [(C, "digest('none', '')", "digest('str', 'None')")]),
 ('listtuple', 'C01', [(C, "return digest(kind, '-'.join(hashes))", "return digest('seq', '-'.join(hashes))")]),
 ('floatstr', 'C01', [(C, "argument.hex()", "'%.10g' % argument")]),
 ('intfloat', 'C01', [(C, "digest('number', str(int(argument)))", "digest('number', str(abs(int(argument))))")]),
 ('dictkeys', 'C01', [(C, "hashes_k + hashes_v", "hashes_v")]),
 ('symkind', 'C01', [(C, "digest('sym', sym.srepr(argument))", "digest('str', str(argument))")]),
 ('symstr', 'C01', [(C, "sym.srepr(argument)", "str(argument)")]),
 ('objptr', 'C02', [(C, "argument.dtype.hasobject", "False")]),
 ('structname', 'C01', [(C, "str(argument.dtype) +", "argument.dtype.str +")]),
 ('maskless', 'C01', [(C, "the_hash([argument.data, mask])", "the_hash([argument.data])")]),
 ('matrixkind', 'C01', [(C, "kind = 'matrix' if isinstance(argument, np.matrix) else 'array'", "kind = 'array'")]),
 ('join', 'C01', [(C, "return digest(kind, '-'.join(hashes))", "return digest(kind, str(len(hashes)) + hashes[-1] if hashes else '')")]),
 ('storable', 'C01', [(C, "            return dtype.kind in 'biufc'\n        return False", "            return True\n        return True")]),
 ('isint', 'C01', [(C, "result_cache.is_integer()", "abs(result_cache - round(result_cache)) < 1e-8")]),
 ('ravel', 'C01', [(C, "        result = np.load(filename)\n        if result.shape == ():", "        result = np.load(filename)\n        if result.size == 1:")]),
 ('order', 'C01', [(C, "content = np.ascontiguousarray(argument)", "content = argument.tobytes('A')")]),
 ('fssort', 'C02', [(C, "                hashes.sort()\n", "                pass\n")]),
 ('pyhash', 'C02', [(C, "digest('str', argument)", "digest('str', str(hash(argument)))")]),
 ('bigskip', 'C02', [(C, "return dtype.kind in 'biufc'", "return dtype.kind in 'biuf'")]),
 ('npyonly', 'C02', [(C, "            elif os.path.isfile(savefile + '.npz'):", "            elif os.path.isfile(savefile + '.npz') and settings['sparse']:")]),
 ('finally', 'C05', [(C, "            os.replace(tmpfile, filename)\n        except BaseException:\n            with suppress(OSError):\n                os.remove(tmpfile)\n            raise\n", "        finally:\n            os.replace(tmpfile, filename)\n")]),
 ('finally14', 'C14', [(C, "            os.replace(tmpfile, filename)\n        except BaseException:\n            with suppress(OSError):\n                os.remove(tmpfile)\n            raise\n", "        finally:\n            os.replace(tmpfile, filename)\n")]),
 ('so-fixed', 'C07', [(D, 'string cpp_file = "/tmp/" + name + ".XXXXXX.cpp";', 'string cpp_file = "/tmp/" + name + ".cpp";'), (D, "mkstemps(&cpp_file[0], 4)", "open(cpp_file.c_str(), O_CREAT | O_WRONLY, 0600)")]),
 ('so-direct', 'C07', [(D, 'string tmp_file = cpp_file.substr(0, cpp_file.size() - 4) + ".so";', 'string tmp_file = so_file;')]),
 ('so-direct8', 'C08', [(D, 'string tmp_file = cpp_file.substr(0, cpp_file.size() - 4) + ".so";', 'string tmp_file = so_file;')]),
 ('so-ret', 'C08', [(D, "if (return_value != 0 || rename(", "if (rename(")]),
 ('so-norebuild', 'C08', [(D, "        intern_function(function_body, true);\n", "")]),
 ('so-nullcheck', 'C08', [(D, '    if (function_so == nullptr)\n        throw runtime_error("Error loading file in /tmp");\n', '')]),
 ('so-dlsym', 'C08', [(D, '    if (func == nullptr)\n        throw runtime_error("Error loading function from file in /tmp");\n', '')]),
 ('so-good', 'C08', [(D, "write_function.good() ? system(command.c_str()) : -1", "system(command.c_str())")]),
 ('so-fsync', 'C08', [(D, "            return_value = fsync(descriptor);\n", "")]),
 ('so-mkstemp', 'C08', [(D, '         if (descriptor == -1)\n             throw runtime_error("Error creating file in /tmp");\n', '')]),
 ('so-closer', 'C10', [(D, "    unique_ptr<void, int (*)(void *)> closer(function_so, dlclose);\n", "")]),
 ('so-hash', 'C07', [(D, "string name = to_string(hash<string>()(function_body));", "string name = to_string(hash<string>()(function_body) % 64);")]),
 ('so-pid', 'C07', [(D, 'mkstemps(&cpp_file[0], 4)', 'open((cpp_file = "/tmp/" + name + "." + to_string(getpid()) + ".cpp").c_str(), O_CREAT | O_WRONLY, 0600)')]),
 ('gil', 'C13', [(D, 'mkstemps(&cpp_file[0], 4)', 'open((cpp_file = "/tmp/" + name + "." + to_string(getpid()) + ".cpp").c_str(), O_CREAT | O_WRONLY, 0600)'),
   (D, "    intern_function(function_body);\n", "    struct Unlock { PyThreadState *s; Unlock(): s(PyEval_SaveThread()) {} ~Unlock() { PyEval_RestoreThread(s); } };\n    { Unlock u; intern_function(function_body); }\n"), (D, "#include <cmath>\n", "#include <Python.h>\n#include <cmath>\n")]),
 ('deg0', 'C11', [(H + 'hermite.cpp', "    if (degree > 0)\n        values[1] = x;", "    values[1] = x;")]),
 ('d-size', 'C09', [(D, "    if (translation.size() != dim || dilation.size() != dim)\n" + THROW, "")]),
 ('d-rows', 'C09', [(D, "        if (row.size() != dim)\n", "        if (row.size() > 99)\n")]),
 ('t-size', 'C09', [(H + 'transform.cpp', "if (do_fourier.size() != dim || input.size() != (forward ? n_points_tot : n_polys))", "if (do_fourier.size() != dim)")]),
 ('t-weights', 'C09', [(H + 'transform.cpp', "if (weights.size() != dim || weights[i].size() != n_points[i])", "if (weights.size() != dim)")]),
 ('t-fourier', 'C09', [(H + 'transform.cpp', "do_fourier.size() != dim || ", "")]),
 ('p-dirs', 'C09', [(H + 'project.cpp', "if (dirs[i] >= dim || std::count(dirs.begin(), dirs.end(), dirs[i]) != 1)", "if (dirs[i] >= dim)")]),
 ('p-range', 'C09', [(H + 'project.cpp', "if (dirs[i] >= dim || ", "if (")]),
 ('p-square', 'C09', [(H + 'project.cpp', "if (matrix::size2(input) != n_polys)", "if (matrix::size2(input) < n_polys)")]),
 ('z-degree', 'C09', [(H + 'tensorize.cpp', "        check_degree<Iterator>(matrix::size2(inputs[i]), dims[i], degree);\n", "")]),
 ('z-distinct', 'C09', [(H + 'tensorize.cpp', "    check_distinct(dirs);\n", "")]),
 ('z-dir', 'C09', [(H + 'tensorize.cpp', '    if (dir >= dim)\n        throw std::invalid_argument("Invalid direction");\n    u_int degree = input.size() - 1;', '    u_int degree = input.size() - 1;')]),
 ('i-order', 'C09', [(H + 'inner.cpp', "if ((k < dim1 && dirs1[k] <= dirs1[k-1]) || (k < dim2 && dirs2[k] <= dirs2[k-1]))", "if (k < dim1 && dirs1[k] <= dirs1[k-1])")]),
 ('i-degree', 'C09', [(H + 'inner.cpp', "if (degree != Iterator::s_get_degree(dim2, s2.size()))", "if (degree < Iterator::s_get_degree(dim2, s2.size()))")]),
 ('v-size2', 'C09', [(H + 'varf.cpp', "var.size1() != m->size() || var.size2() != m->size()", "var.size1() != m->size()")]),
 ('v-dir', 'C09', [(H + 'varf.cpp', "if (direction >= dim || var.size1()", "if (var.size1()")]),
 ('c-degree', 'C09', [(H + 'iterators.cpp', "    if (s_size(dim, degree) != n_polys)\n        throw std::invalid_argument(\"Number of polynomials does not match a degree\");\n", "")]),
 ('exit', 'C09', [(H + 'lib.cpp', 'throw std::invalid_argument("Can\'t find x, Invalid arguments!");', 'exit(0);')]),
 ('ragged', 'C09', [(H + 'sparse.cpp', "if (input[i].size() != input[0].size())", "if (input[i].size() < input[0].size())")]),
 ('ragged11', 'C11', [(H + 'sparse.cpp', "if (input[i].size() != input[0].size())", "if (input[i].size() > input[0].size())")]),
 ('cv-rows', 'C12', [(PY, "data + i*stride_rows + n_cols", "data + (i+1)*stride_rows")]),
 ('cv-bmat', 'C12', [(PY, "result[i][j] = data[i*stride_rows + j];", "result[i][j] = data[i*n_cols + j];")]),
 ('cv-type', 'C09', [(PY, '    Py_intptr_t stride_rows = strides[0] / (Py_intptr_t) sizeof(double);\n    if (!np::equivalent(input.get_dtype(), np::dtype::get_builtin<double>()))\n        throw std::invalid_argument("Elements of the matrix must be of type double");\n\n    if (strides[1] != sizeof(double) || strides[0] % sizeof(double) != 0)\n    {\n        cout << "Rows of the matrix must be stored contiguously" << endl;\n        throw ROWS_NOT_CONTIGUOUS;\n    }\n\n    mat result', '    Py_intptr_t stride_rows = strides[0] / (Py_intptr_t) sizeof(double);\n    mat result')]),
 ('vd-contig', 'C12', [(CO, "np.ascontiguousarray(var, dtype=float)", "np.asarray(var, dtype=float).ravel('K').reshape(var.shape)")]),
 ('st-time', 'C15', [(ST, "time.perf_counter()", "time.time()")]),
 ('st-process', 'C15', [(ST, "time.perf_counter()", "time.process_time()")]),
 ('st-finally', 'C15', [(ST, "            try:\n                result = function(*args, **kwargs)\n            finally:\n                indent -= 1\n", "            result = function(*args, **kwargs)\n            indent -= 1\n")]),
 ('st-exception', 'C15', [(ST, "            finally:\n                indent -= 1\n", "            except Exception:\n                indent -= 1\n                raise\n            indent -= 1\n")]),
 ('st-count', 'C15', [(ST, "            indent += 1\n", "            indent += 1\n            stats.setdefault(key, {'Calls': 0, 'Time': 0})['Calls'] += 1\n"), (ST, "            stats[key]['Calls'] += 1\n            stats[key]['Time']", "            stats[key]['Time']")]),
 ('sig', 'C12', [(SE, "            self.coeffs = self.coeffs.copy()\n", "")]),
 ('plotreal', 'C12', [(Q, "                series = hm.Series(np.real(series.coeffs).copy(order='C'),\n                                   series.position, factor=series.factor,\n                                   index_set=series.index_set)\n", "                series.coeffs = np.real(series.coeffs).copy(order='C')\n")]),
]


def main(M, words):
    ids = sys.argv[1:]
    for mid, prop, edits in M:
        if ids and mid not in ids and prop not in ids:
            continue
        w = '/tmp/mut/' + mid
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/repo'])
        subprocess.check_call('git -C /repo diff HEAD > %s/d; [ ! -s %s/d ] || git -C %s/repo apply %s/d' % (w, w, w, w), shell=True)
        subprocess.check_call(['git', 'clone', '-q', '/verif', w + '/verif'])
        subprocess.check_call('cd /verif && cp -a sim check.py known_findings.json %s/verif/ && rm -rf %s/verif/seeded' % (w, w), shell=True)
        bad = 0
        for path, old, new in edits:
            p = os.path.join(w, 'repo', path)
            t = open(p).read()
            if old not in t:
                bad = 1
                print(mid, 'NO MATCH in', path, repr(old)[:80], flush=True)
            open(p, 'w').write(t.replace(old, new))
        if bad:
            continue
        script = '''mount --bind %s/repo /repo; mount --bind %s/verif /verif; mkdir -p /mnt; mount --bind %s /mnt; mount -t tmpfs t /tmp
cd /verif; s=$(date +%%s); timeout 900 python3 check.py %s > /mnt/log 2>&1; rc=$?
echo "rc=$rc $(( $(date +%%s)-s ))s" > /mnt/res; grep -m1 -A2 VIOLATION /mnt/log >> /mnt/res''' % (w, w, w, prop)
        subprocess.call(['unshare', '-Urm', 'bash', '-c', script], env=dict(os.environ, VERIF_SEED=os.environ.get('SEED', '1'), VERIF_TIER='quick'))
        res = open(w + '/res').read().split('\n')
        os.makedirs('/tmp/mutlogs', exist_ok=True)
        shutil.copy(w + '/log', '/tmp/mutlogs/%s.%s.log' % (mid, prop))
        print(mid, prop, words[0] if res[0].startswith('rc=1') else words[1] if res[0].startswith('rc=0') else 'BROKEN', res[0], ' '.join(res[1:])[:230], flush=True)
        shutil.rmtree(w)


if __name__ == '__main__':
    main(M, ('caught', 'MISSED'))
