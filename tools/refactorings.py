#!/usr/bin/env python3
"""refactorings.py [ids or property ids...]: changes that keep the behaviour; the checks
must stay quiet on each.  Same mechanism as mutants.py."""
import mutants
C = 'hermipy/cache.py'; D = 'cpp/src/hermite/discretize.cpp'; H = 'cpp/src/hermite/'; ST = 'hermipy/stats.py'
CO = 'hermipy/core.py'; SE = 'hermipy/series.py'; Q = 'hermipy/quad.py'
SAVE = mutants.SAVE
HASH = """            hashes, prefix = [], function.__name__
            hashes.append(hash_fun([function.__module__,
                                    function.__qualname__]))
            for arg in args:
                hashes.append(hash_fun(arg))
            for kw in kwargs:
                hashes.append('=' + hash_fun(kw))
                hashes.append(hash_fun(kwargs[kw]))
            hash_args = hash_fun(('-'.join(hashes)))
"""
FIND = """            cached_exists = False
            if os.path.isfile(savefile + '.npy'):
                cached_exists, is_sparse_cache = True, False
                savefile += '.npy'
            elif os.path.isfile(savefile + '.npz'):
                cached_exists, is_sparse_cache = True, True
                savefile += '.npz'
"""
LOAD = """            if cached_exists:
                load = sparse.load_npz if is_sparse_cache else extended_load
                try:
                    result_cache = load(savefile)
                    if use_cache:
                        if isinstance(result_cache, float) and \\
                                result_cache.is_integer():
                            result_cache = int(result_cache)
                        return result_cache
                except Exception:
                    # An unreadable file is the same as no file
                    cached_exists = False
"""
STORE = """            save = sparse.save_npz if is_sparse_result else np.save
            if settings['cache'] and storable(result):
                os.makedirs(cachedir, exist_ok=True)
                extension = '.npz' if is_sparse_result else '.npy'
                savefile = os.path.splitext(savefile)[0] + extension
                atomic_save(save, savefile, result)
            return result
"""
INTERN = """         // Build under a private name, so that so_file is complete if it exists
         int descriptor = mkstemps(&cpp_file[0], 4);
         if (descriptor == -1)
             throw runtime_error("Error creating file in /tmp");
         close(descriptor);
"""
# another key, files found in another way, bytes prepared in memory
CACHE1 = [(C, HASH, """            def call_digest():
                parts = [function.__module__, function.__qualname__]
                parts.append(str(len(args)))
                parts.extend(hash_fun(value) for value in args)
                for name, value in kwargs.items():
                    parts.extend(('kw', hash_fun(name), hash_fun(value)))
                return hashlib.sha1(repr(parts).encode()).hexdigest()

            prefix, hashes = function.__name__, []
            hash_args = call_digest()
"""), (C, FIND, """            cached_exists, is_sparse_cache, base = False, False, savefile
            for extension in ('.npy', '.npz'):
                if os.path.isfile(base + extension):
                    savefile = base + extension
                    cached_exists = True
                    is_sparse_cache = extension == '.npz'
                    break
"""), (C, SAVE, """            stream = open(tmpfile, 'xb')
            try:
                buffer = io.BytesIO()
                save(buffer, result)
                stream.write(buffer.getvalue())
                stream.flush()
                os.fsync(stream.fileno())
            finally:
                stream.close()
            os.rename(tmpfile, filename)
"""), (C, "import hashlib\n", "import hashlib\nimport io\n")]
# helpers extracted, mkstemp, another name of the files, pathlib
CACHE2 = [(C, "import uuid\n", "import tempfile\n"), (C, "        tmpfile = filename + '.' + uuid.uuid4().hex\n        try:\n            with open(tmpfile, 'xb') as stream:\n",
           "        descriptor, tmpfile = tempfile.mkstemp(dir=os.path.dirname(filename),\n                                               suffix='.part')\n        try:\n            with open(descriptor, 'wb') as stream:\n"),
          (C, LOAD, """            def try_load():
                load = sparse.load_npz if is_sparse_cache else extended_load
                try:
                    return True, load(savefile)
                except Exception:
                    # An unreadable file is the same as no file
                    return False, None

            if cached_exists:
                cached_exists, result_cache = try_load()
            if cached_exists and use_cache:
                whole = isinstance(result_cache, float) and \\
                    result_cache.is_integer()
                return int(result_cache) if whole else result_cache
"""), (C, STORE, """            if not settings['cache'] or not storable(result):
                return result

            Path(cachedir).mkdir(parents=True, exist_ok=True)
            if is_sparse_result:
                atomic_save(sparse.save_npz, base + '.npz', result)
            else:
                atomic_save(np.save, base + '.npy', result)
            return result
"""), (C, "            savefile = cachedir + '/' + prefix + '-' + str(hash_args)\n", "            base = os.path.join(cachedir, '{}_{}'.format(prefix, hash_args))\n            savefile = base\n"),
          (C, "from contextlib import suppress\n", "from contextlib import suppress\nfrom pathlib import Path\n")]
# directory synced too, a lock file that is released by the kernel, open in exclusive mode with os.open
CACHE3 = [(C, SAVE, """            fd = os.open(tmpfile, os.O_WRONLY | os.O_CREAT | os.O_EXCL, 0o666)
            with os.fdopen(fd, 'wb') as stream:
                save(stream, result)
                stream.flush()
                os.fsync(fd)
            os.replace(tmpfile, filename)
            directory = os.open(os.path.dirname(filename), os.O_RDONLY)
            try:
                os.fsync(directory)
            finally:
                os.close(directory)
"""), (C, "                if error" if False else "            if cached_exists:\n                error = error_fun(result, result_cache)\n                ok = is_sparse_cache is is_sparse_result and error < 1e-10\n                if not quiet and not ok:\n                    raise ValueError(\"Result does not correspond to cache\")\n                return result\n",
          "            if cached_exists:\n                if quiet:\n                    return result\n                same_kind = is_sparse_cache is is_sparse_result\n                if same_kind and error_fun(result, result_cache) < 1e-10:\n                    return result\n                raise ValueError(\"Result does not correspond to cache\")\n")]
CACHE3 = [CACHE3[0]]      # quiet skips the comparison in the second one: another behaviour when it raises
COMPILE1 = [(D, """         ofstream write_function;
         write_function.open(cpp_file);
         write_function << "#define M_PI 3.14159265358979323846\\n";
         write_function << "#include <vector>\\n#include <cmath>\\n";
         write_function << "extern \\"C\\" double toIntegrate(double *v) {\\n";
         write_function << "    return " << function_body << ";\\n}";
         write_function.close();

        // Compile file
        string command = "c++ " + cpp_file + " -o " + tmp_file + " -O3 -Ofast -shared -fPIC";
        int return_value = write_function.good() ? system(command.c_str()) : -1;
""", """         string text = "#define M_PI 3.14159265358979323846\\n";
         text += "#include <vector>\\n#include <cmath>\\n";
         text += "extern \\"C\\" double toIntegrate(double *v) {\\n";
         text += "    return " + function_body + ";\\n}";
         FILE *stream = fopen(cpp_file.c_str(), "w");
         bool written = stream != nullptr;
         if (written)
         {
             written = fwrite(text.data(), 1, text.size(), stream) == text.size();
             written = fclose(stream) == 0 && written;
         }

        // Compile file
        string command = "c++ -shared -fPIC -O3 -Ofast -o " + tmp_file + " " + cpp_file;
        int return_value = -1;
        if (written)
            return_value = system(command.c_str());
"""), (D, "#include <cmath>\n", "#include <cmath>\n#include <cstdio>\n")]
COMPILE2 = [(D, "void intern_function(string const & function_body, bool rebuild)\n{\n    string name = to_string(hash<string>()(function_body));\n", """static string file_name(string const & function_body)
{
    return to_string(hash<string>()(function_body)) + "_" + to_string(function_body.size());
}

static bool sync_file(string const & name)
{
    int descriptor = open(name.c_str(), O_RDONLY);
    if (descriptor == -1)
        return false;
    bool ok = fsync(descriptor) == 0;
    close(descriptor);
    return ok;
}

void intern_function(string const & function_body, bool rebuild)
{
    string name = file_name(function_body);
"""), (D, "    intern_function(function_body);\n    string name = to_string(hash<string>()(function_body));\n", "    intern_function(function_body);\n    string name = file_name(function_body);\n"),
 (D, """        if (return_value == 0)
        {
            descriptor = open(tmp_file.c_str(), O_RDONLY);
            return_value = fsync(descriptor);
            close(descriptor);
        }
        if (return_value != 0 || rename(""", """        bool complete = return_value == 0 && sync_file(tmp_file);
        if (! complete || rename("""),
 (D, """    vec node(dim);
    vec mapped_node(dim);
""", """    unique_ptr<double[]> node(new double[dim]());
    unique_ptr<double[]> mapped_node(new double[dim]());
"""), (D, "map_point(translation, dilation, node.data(), mapped_node.data());\n        result[i] = func(mapped_node.data());", "map_point(translation, dilation, node.get(), mapped_node.get());\n        result[i] = func(mapped_node.get());"),
 (D, "    Grid_iterator p(n_points);\n    for (i = 0; i < n_points_tot; i++, p.increment())\n    {\n        for (j = 0; j < dim; j++)\n        {\n            node[j] = nodes[j][p[j]];\n        }\n", "    Grid_iterator p(n_points);\n    i = 0;\n    while (i < n_points_tot)\n    {\n        for (j = dim; j-- > 0;)\n            node[j] = nodes[j][p[j]];\n"),
 (D, "        result[i] = func(mapped_node.get());\n    }\n" if False else "    }\n\n    return result;\n}\n\nvoid intern", "        i++;\n        p.increment();\n    }\n\n    return result;\n}\n\nvoid intern")]
# last edit needs the helper before it
COMPILE2 = [COMPILE2[6], *COMPILE2[:6]]
STATS1 = [(ST, """            time_start = time.perf_counter()
            indent += 1
            try:
                result = function(*args, **kwargs)
            finally:
                indent -= 1
            time_end = time.perf_counter()

            if key not in stats:
                stats[key] = {'Calls': 0, 'Time': 0}
            stats[key]['Calls'] += 1
            stats[key]['Time'] += time_end - time_start
            if rc.settings['trails'] or force:
                delta_time = time_end - time_start
                if delta_time > threshold:
                    print(indent_str + "Function " + key
                          + ": " + str(delta_time))
            return result
""", """            time_start = time.perf_counter()
            with nested():
                result = function(*args, **kwargs)
            elapsed = time.perf_counter() - time_start
            entry = stats.setdefault(key, {'Calls': 0, 'Time': 0})
            entry['Calls'], entry['Time'] = \\
                entry['Calls'] + 1, entry['Time'] + elapsed
            show = rc.settings['trails'] or force
            if show and elapsed > threshold:
                print("{}Function {}: {}".format(indent_str, key, elapsed))
            return result
"""), (ST, "def log_stats(force=False):\n", """@contextmanager
def nested():
    global indent
    indent += 1
    try:
        yield
    finally:
        indent -= 1


def log_stats(force=False):
"""), (ST, "from functools import wraps\n", "from contextlib import contextmanager\nfrom functools import wraps\n"),
 (ST, "            indent_str = ''.join([\" \"]*indent) + str(indent) + \" \"\n", "            indent_str = '{}{} '.format(' '*indent, indent)\n")]
CORE1 = [(CO, "        do_fourier = [0]*len(nodes)\n", "        do_fourier = [0 for _ in nodes]\n"),
 (CO, "    cpp_vec = hm_cpp.double_vec()\n    cpp_vec.extend(vec)\n    return cpp_vec\n", "    cpp_vec = hm_cpp.double_vec()\n    for value in vec:\n        cpp_vec.append(value)\n    return cpp_vec\n"),
 (CO, "    if isinstance(inp, dict):\n\n        any_elem = list(inp.values())[0]\n", "    if isinstance(inp, dict):\n\n        any_elem = next(iter(inp.values()))\n"),
 (CO, "    rcv = np.array(hm_cpp.row_col_val(sp_matrix))\n    shape = (sp_matrix.size1(), sp_matrix.size2())\n    return ss.csr_matrix((rcv[2], (rcv[0], rcv[1])), shape=shape)\n", "    rows, cols, vals = np.array(hm_cpp.row_col_val(sp_matrix))\n    shape = (sp_matrix.size1(), sp_matrix.size2())\n    return ss.coo_matrix((vals, (rows, cols)), shape=shape).tocsr()\n"),
 (Q, "                for add in function.split(legacy=False):\n                    multiplicator = add[frozenset()]\n                    del add[frozenset()]\n", "                for add in function.split(legacy=False):\n                    multiplicator = add.pop(frozenset())\n"),
 (Q, "                return sum(results[1:], results[0])\n", "                total = results[0]\n                for result in results[1:]:\n                    total = total + result\n                return total\n"),
 (Q, "        mapped_nodes = self.nodes.copy()\n        for i, n in enumerate(self.nodes):\n            mapped_nodes[i] = n * factor[i][i] + translation[i]\n", "        mapped_nodes = np.array([n * factor[i][i] + translation[i]\n                                 for i, n in enumerate(self.nodes)])\n")]
R = [(n + '-' + p, p, e) for n, e, ps in [
    ('cache1', CACHE1, 'C01 C02 C03 C04 C05 C06 C13'), ('cache2', CACHE2, 'C01 C02 C03 C04 C05 C06 C13'), ('cache3', CACHE3, 'C03 C04 C05'),
    ('compile1', COMPILE1, 'C07 C08 C10'), ('compile2', COMPILE2, 'C07 C08 C09 C10 C11 C12 C14'), ('stats1', STATS1, 'C15 C13 C10'), ('core1', CORE1, 'C01 C02 C09 C10 C11 C12 C14'),
    ] for p in ps.split()]
if __name__ == '__main__':
    mutants.main(R, ('NOT QUIET', 'quiet'))
