#!/usr/bin/env python3
"""Quietness of the evaluator on ordinary C++ idioms: each snippet leaves `density` unchanged when inserted at the head of
HexElement::ComputeLumpedMass in a scratch copy; P02 must still hold with nothing undecided.  idioms.py [NAME...]"""
import subprocess, sys, os, shutil
from concurrent.futures import ThreadPoolExecutor
s = open('/repo/src/nimble_element.cc').read()
OLD = "  for (int i = 0; i < num_nodes_; i++) {\n    lumped_mass[i] = 0.0;"
INC = ''.join('#include <%s>\n' % h for h in ('algorithm', 'cstring', 'numeric', 'tuple', 'iterator', 'array', 'memory', 'vector', 'map', 'set', 'string', 'functional', 'deque', 'utility', 'unordered_map', 'sstream'))
T = {
'fillbegin':"double z[3]; std::fill(std::begin(z), std::end(z), 0.0); density += z[1];\n",
'filln':"double z[3]; std::fill_n(z, 3, 0.0); density += z[1];\n",
'memset':"double z[3]; memset(z, 0, sizeof(z)); density += z[1];\n",
'copy':"double z[3]; std::copy(node_reference_coords, node_reference_coords+3, z); density += 0*z[1];\n",
'memcpy':"double z[3]; memcpy(z, node_reference_coords, 3*sizeof(double)); density += 0*z[1];\n",
'range':"double z[3]; for (auto& x : z) x = 0; density += z[1];\n",
'range2':"double z[2][3]; for (auto& r : z) for (auto& x : r) x = 0; density += z[1][2];\n",
'lam':"double z; auto f=[&](){z=0;}; f(); density += z;\n",
'lam2':"double z; auto f=[](double& x){x=0;}; f(z); density += z;\n",
'tie':"double z,w; std::tie(z,w) = std::make_pair(0.0,0.0); density += z;\n",
'ptr':"double z[3]; double* p=z; for(int i=0;i<3;++i) *p++ = 0; density += z[1];\n",
'ptr2':"double z; double* p=&z; *p = 0; density += z;\n",
'iota':"int z[3]; std::iota(z, z+3, 0); density += z[0];\n",
'swap':"double z=0; double w=0; std::swap(z,w); density += z;\n",
'stdarr':"std::array<double,3> z; z.fill(0); density += z[1];\n",
'stdarr2':"std::array<double,3> z; for (int i=0;i<3;++i) z[i]=0; density += z[1];\n",
'stdarr3':"std::array<double,3> z{}; density += z[1];\n",
'stdarr4':"std::array<std::array<double,3>,2> z; for (auto& r : z) r.fill(0); density += z[1][2];\n",
'stdarr5':"std::array<double,3> z{{0,0,0}}; for (std::size_t i=0;i<z.size();++i) density += z[i];\n",
'genn':"double z[3]; std::generate_n(z, 3, []{return 0.0;}); density += z[1];\n",
'trans':"double z[3]; std::transform(node_reference_coords, node_reference_coords+3, z, [](double){return 0.0;}); density += z[1];\n",
'trans2':"std::vector<double> a(3,1.), b(3,1.), c; std::transform(a.begin(),a.end(),b.begin(),std::back_inserter(c),[](double x,double y){return x-y;}); density += c[2];\n",
'struct':"struct S{double a,b;}; S z; z.a=0; z.b=0; density += z.a;\n",
'struct2':"struct S{double a=0,b=0;}; S z; density += z.a;\n",
'struct3':"struct S{double a,b;}; S z{0,0}; density += z.b;\n",
'end':"double z[3]={0,0,0}; for (double* p=&z[0]; p!=&z[3]; ++p) density += *p;\n",
'flat':"double z[3][3]={}; double* p=&z[0][0]; density += p[8];\n",
'do':"double z; int k=0; do { z = 0; ++k; } while (k<2); density += z;\n",
'sw':"double z; switch(num_nodes_) { case 8: z=0; break; default: z=0; } density += z;\n",
'try':"double z; try { z = 0; } catch(...) { z=0; } density += z;\n",
'tern':"double z; (density > 0) ? (z=0) : (z=0); density += z;\n",
'tern2':"double z=0; double w=0; ((density > 0) ? z : w) = 0; density += z+w;\n",
'comma':"double z; int i; for (i=0, z=0; i<3; ++i); density += z;\n",
'ref':"double z; double& y=z; y=0; density += z;\n",
'nestedfn':"double z[3]; double (&y)[3]=z; for(int i=0;i<3;++i) y[i]=0; density += z[1];\n",
'vec':"std::vector<double> v; v.reserve(3); for(int i=0;i<3;++i) v.emplace_back(0.); density += v[2];\n",
'vec2':"std::vector<double> v(3); double* p=v.data(); double* e=v.data()+v.size(); for(;p<e;++p) density += *p;\n",
'vec3':"std::vector<double> v; v.insert(v.end(), {0.,0.}); density += v[1];\n",
'vec4':"std::vector<double> v(2,0.0); v.resize(5); density += v[4];\n",
'vec5':"std::vector<std::vector<double>> v(2, std::vector<double>(2, 0.)); density += v[1][1];\n",
'vec6':"std::vector<double> v; std::vector<double> w{0,0,0}; v=std::move(w); density += v[2];\n",
'vec7':"std::vector<double> v; std::vector<double> w{0,0,0}; std::copy(w.begin(),w.end(),std::back_inserter(v)); density += v[2];\n",
'vec8':"std::vector<double> v; std::vector<double> w{0,0,0}; v.swap(w); density += v[2];\n",
'vec9':"std::vector<double> v; v.assign(4, 0.); density += v[3];\n",
'vec10':"std::vector<int> v{1,2,3,4}; v.erase(std::remove_if(v.begin(), v.end(), [](int x){return x%2==0;}), v.end()); density += v.size()-2.0;\n",
'vec11':"std::vector<double> v{0,0,0}; for (auto it=v.rbegin(); it!=v.rend(); ++it) density += *it;\n",
'vec12':"std::vector<double> v{0,0,0}; std::vector<double> w(v.begin(), v.end()); density += w.back() + w.front();\n",
'vec13':"std::vector<double> v{0,0,0}; v.erase(v.begin()); v.pop_back(); density += v.at(0) + double(v.size()) - 1.0;\n",
'vec14':"std::vector<int> v{3,1,2}; std::sort(v.begin(), v.end(), std::greater<int>()); density += v[0]-3;\n",
'vec15':"std::vector<int> v{3,1,2}; auto m=*std::max_element(v.cbegin(), v.cend()); density += m-3;\n",
'vec16':"std::vector<int> v{3,1,2}; density += std::accumulate(v.begin(), v.end(), 0) - 6;\n",
'vec17':"std::vector<int> v{3,1,2}; auto it = std::find_if(v.begin(), v.end(), [](int x){return x==1;}); density += std::distance(v.begin(), it) - 1;\n",
'vec18':"std::vector<bool> v(3,false); v[1]=true; int c=0; for (bool b : v) if (b) ++c; density += c-1;\n",
'vec19':"const std::vector<double> v = [](){ std::vector<double> t; t.push_back(0.); return t; }(); density += v[0];\n",
'new':"double* v=new double[3]; for(int i=0;i<3;++i) v[i]=0; density += v[2]; delete[] v;\n",
'uniq':"std::unique_ptr<double[]> v(new double[3]); for(int i=0;i<3;++i) v[i]=0; density += v[2];\n",
'uniq2':"auto v = std::make_unique<double>(0.0); density += *v;\n",
'shared':"std::shared_ptr<std::vector<double>> v = std::make_shared<std::vector<double>>(3, 0.0); density += (*v)[2];\n",
'set':"std::set<int> s{3,1,2}; std::vector<int> v(s.begin(), s.end()); density += v[0]-1;\n",
'set2':"std::set<int> s{3,1,2}; std::vector<int> v; std::copy(s.begin(), s.end(), std::back_inserter(v)); density += v[2]-3;\n",
'set3':"std::set<int> s; for (int i=0;i<4;++i) s.insert(i/2); density += double(s.size())-2; for (int x : s) density += 0*x;\n",
'map':"std::map<int,double> m; m[2]=0; m.emplace(1,0.); for (auto const& kv : m) density += kv.second; density += m.at(1);\n",
'map2':"std::map<std::string,double> m{{\"a\",0.},{\"b\",0.}}; auto it=m.find(\"b\"); if (it!=m.end()) density += it->second;\n",
'map3':"std::map<int,int> m; for (int i=0;i<3;++i) ++m[i%2]; density += m[0]-2;\n",
'map4':"std::map<int,std::vector<int>> m; m[1].push_back(3); m[1].push_back(4); density += m[1].size()-2.0;\n",
'umap':"std::unordered_map<int,int> m; m[4]=1; density += m.count(4)-1.0;\n",
'pair':"std::pair<double,int> p(0.,1); density += p.first; auto q=std::make_pair(0,0); density += q.second;\n",
'tuple':"auto t=std::make_tuple(0.,1,2); density += std::get<0>(t);\n",
'deque':"std::deque<double> d; d.push_back(0); d.push_front(0); density += d[1];\n",
'func':"std::function<double(double)> f=[](double x){return x-x;}; density += f(2.0);\n",
'while':"int k=3; while (k-- > 0) density += 0.0; density += k+1;\n",
'for2':"for (int i=0, j=3; i<j; ++i, --j) density += 0.0;\n",
'goto':"int k=0; for(;;) { if (++k>3) break; } density += k-4;\n",
'bool':"bool ok=true; for (int i=0;i<3;++i) ok &= (i<3); if (!ok) density = -1;\n",
'bits':"unsigned m=0; for (int i=0;i<3;++i) m |= (1u<<i); density += double(m)-7;\n",
'static':"static const double z[3]={0,0,0}; density += z[1];\n",
'constexpr':"constexpr int n=3; double z[n]={}; density += z[n-1];\n",
'auto':"auto const n=num_nodes_; auto z=0.0; for (auto i=decltype(n){0}; i<n; ++i) z += 0.0; density += z;\n",
'minmax':"density += std::min({0,1,2}) + std::max(0.0, -1.0);\n",
'string':"std::string s=\"abc\"; s += 'd'; density += double(s.size())-4; if (s.substr(1,2)!=\"bc\") density=0;\n",
'ss':"std::stringstream ss; ss << 3 << ' ' << 4; int a=0,b=0; ss >> a >> b; density += a+b-7;\n",
'stoi':"density += std::stoi(\"12\") - 12; density += std::stod(\"0.0\"); density += std::to_string(5)==\"5\" ? 0 : 1;\n",
'cast':"density += static_cast<double>(static_cast<int>(2.7)) - 2;\n",
'shadow':"{ double density2 = density; density = density2; }\n",
'early':"auto f=[&](int k)->double { if (k==1) return 0.0; for (int i=0;i<3;++i) if (i==k) return 0.0; return 0.0; }; density += f(2);\n",
'recur':"std::function<int(int)> f=[&](int n){ return n<=0 ? 0 : f(n-1); }; density += f(3);\n",
'exch':"int a=0; int b=std::exchange(a,1); density += b; density += a-1;\n",
'loopcopy':"std::vector<double> v(node_reference_coords, node_reference_coords+24); density += 0*v[23]; density += double(v.size())-24;\n",
'innerp':"std::vector<double> a(3,0.), b(3,1.); density += std::inner_product(a.begin(),a.end(),b.begin(),0.0);\n",
'lambdacap':"double z=0; auto f=[z](double x) mutable { z += x; return z; }; density += f(0.); density += z;\n",
'initlist':"for (double x : {0.,0.,0.}) density += x;\n",
'enumerate':"int idx=0; for (auto const& x : std::vector<int>{0,1,2}) { density += x-idx; ++idx; }\n",
'rangesetall':"std::vector<double> v(4); for (auto& x : v) x=0.; double sum=0; for (auto x : v) sum+=x; density += sum;\n",
'ptrdiff':"double z[4]={}; double* a=z; double* b=z+4; density += double(b-a)-4; for (; a!=b; ++a) density += *a;\n",
'nullck':"const double* p=node_reference_coords; if (p==nullptr) density=0;\n",
'ternchain':"int k=num_nodes_; density += k==8 ? 0 : k==4 ? 1 : 2;\n",
'swstr':"std::string s=\"b\"; int k = s==\"a\" ? 1 : s==\"b\" ? 0 : 2; density += k;\n",
'whilebreak':"std::size_t i=0; std::vector<int> v{1,2,3}; while (i<v.size()) { if (v[i]==2) break; ++i; } density += double(i)-1;\n",
'continue':"int c=0; for (int i=0;i<5;++i) { if (i%2) continue; ++c; } density += c-3;\n",
'nestvec':"std::vector<std::vector<int>> v; v.emplace_back(); v.back().push_back(1); v.push_back({2,3}); density += v[1][1]-3;\n",
'vecpair':"std::vector<std::pair<int,double>> v; v.emplace_back(1,0.); v.push_back({2,0.}); for (auto& p : v) density += p.second; std::sort(v.begin(),v.end()); density += v[0].first-1;\n",
'sortlam':"std::vector<std::pair<int,int>> v{{2,0},{1,1}}; std::sort(v.begin(),v.end(),[](auto const&a,auto const&b){return a.first<b.first;}); density += v[0].second-1;\n",
'unique':"std::vector<int> v{1,1,2}; v.erase(std::unique(v.begin(),v.end()),v.end()); density += double(v.size())-2;\n",
'lower':"std::vector<int> v{1,3,5}; density += double(std::lower_bound(v.begin(),v.end(),3)-v.begin())-1;\n",
'binsearch':"std::vector<int> v{1,3,5}; density += std::binary_search(v.begin(),v.end(),3) ? 0 : 1;\n",
'eraseloop':"std::map<int,int> m{{1,1},{2,2}}; for (auto it=m.begin(); it!=m.end();) { if (it->first==1) it=m.erase(it); else ++it; } density += double(m.size())-1;\n",
'insertret':"std::set<int> s; auto r=s.insert(3); density += r.second ? 0 : 1;\n",
'mapinsert':"std::map<int,int> m; m.insert({1,2}); m.insert(std::make_pair(2,3)); density += m[1]-2;\n",
}
def run(k):
    d = '/tmp/m_%s' % k.split('+')[0]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree('/repo/src', d + '/src')
    assert s.count(OLD) == 1
    open(d + '/src/nimble_element.cc', 'w').write(INC + s.replace(OLD, ''.join('  { %s  }\n' % T[x] for x in k.split('+')) + OLD, 1))
    shutil.copytree('/verif', d + '/v', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'), symlinks=True)
    r = subprocess.run('cd %s/v && NSA_REPO=%s timeout 300 python3 check.py P02 | cut -c1-250 | head -5' % (d, d), shell=True, capture_output=True, text=True)
    shutil.rmtree(d)
    return k, r.stdout + r.stderr[-300:]


ks = sys.argv[1:] or list(T)
groups = ['+'.join(ks[i::14]) for i in range(14)] if len(ks) > 20 else ks
with ThreadPoolExecutor(4) as ex:
    bad = []
    for k, o in ex.map(run, groups):
        if not ('HOLDS' in o and 'UNDEC' not in o):
            bad += k.split('+')
            if '+' not in k:
                print(k, o, flush=True)
    if groups != ks:
        n = 0
        for k, o in ex.map(run, bad):
            if not ('HOLDS' in o and 'UNDEC' not in o):
                n += 1
                print(k, o, flush=True)
        bad = bad[:n]
print(len(ks) - len(bad), 'of', len(ks), 'quiet')
