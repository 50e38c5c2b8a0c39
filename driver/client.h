#pragma once
#include "js.h"
#include <functional>
#include <memory>
#include <csignal>
#include <netcdf.h>
#include "Util.h"
#include "Options.h"
#include "Setup.h"
#include "Variable.h"
#include "File/File.h"
#include "Downscaler/Downscaler.h"
#include "Calibrator/Calibrator.h"
#include "ParameterFile/ParameterFile.h"
#include "Parameters.h"
#include "KDTree.h"

typedef std::function<std::string(const J&)> Op;
std::map<std::string, Op>& ops();
typedef std::vector<float> vec;
typedef std::vector<std::vector<float> > v2;
typedef std::vector<v2> v3;
// a file held in memory: a grid, times, members and the fields it "holds"
class MemFile : public File {
   public:
      MemFile(const J& j);
      std::string name() const { return "mem"; }
      std::map<std::string, std::vector<v3> > mUnder;
      std::vector<std::vector<std::string> > mWritten;
   protected:
      FieldPtr getFieldCore(const Variable& v, int t) const;
      void writeCore(std::vector<Variable> v, std::string m = "");
      bool hasVariableCore(const Variable& v) const { return mUnder.count(v.name()) > 0; }
};
struct Store {
    std::map<std::string, std::shared_ptr<File> > files;
    std::map<std::string, std::shared_ptr<Options> > opts;
    std::map<std::string, std::shared_ptr<ParameterFile> > pars;
    void clear() { files.clear(); opts.clear(); pars.clear(); }
};
Store& store();
// text is given and shown as a list of characters, so that the specification can read it
std::string text(const J& j);
std::string chars(const std::string& s);
vec fvec(const J& j);
v2 fvec2(const J& j);
std::string obj(std::initializer_list<std::pair<const char*, std::string> > l);
std::string field(const Field& f);
Variable variable(const J& j);
Options options(const J& j);
File& file(const J& j);
template<class T> std::string list(const std::vector<T>& v) { std::string r = "["; for(size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + v[i]; return r + "]"; }
