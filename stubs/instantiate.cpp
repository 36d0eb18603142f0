// Synthetic translation unit: instantiates the repository's header-only
// templates so that the extractor sees their bodies. Never compiled to code,
// never run.
#include "buildcc.h"
#include "env/storage.h"
#include "schema/custom_generator_schema.h"
#include "schema/target_schema.h"
#include "schema/target_type.h"

namespace vp_inst {
struct Widget {
  explicit Widget(int v) : value(v) {}
  int value;
};
struct Gadget {
  explicit Gadget(int v) : value(v) {}
  int value;
};
struct Blob : buildcc::TypedCustomBlobHandler<std::vector<std::string>> {};

void use_storage(buildcc::ScopedStorage &s) {
  (void)s.Add<Widget>("id", 1);
  (void)s.ConstRef<Widget>("id");
  (void)s.Ref<Widget>("id");
  (void)s.Contains("id");
  (void)s.Valid<Widget>("id");
  (void)s.Add<Gadget>("id", 1);
  (void)s.ConstRef<Gadget>("id");
  (void)s.Ref<Gadget>("id");
  (void)s.Valid<Gadget>("id");
  s.Clear();
  (void)buildcc::Storage::Add<Gadget>("id", 1);
  (void)buildcc::Storage::ConstRef<Gadget>("id");
  (void)buildcc::Storage::Ref<Gadget>("id");
  (void)buildcc::Storage::Valid<Gadget>("id");
  (void)buildcc::Storage::Add<Widget>("id", 1);
  (void)buildcc::Storage::ConstRef<Widget>("id");
  (void)buildcc::Storage::Ref<Widget>("id");
  (void)buildcc::Storage::Contains("id");
  (void)buildcc::Storage::Valid<Widget>("id");
  buildcc::Storage::Clear();
}

struct Package {
  void Setup(const buildcc::ArgToolchainState &);
};

void use_reg(buildcc::BaseTarget &t, buildcc::FileGenerator &g, const buildcc::ArgToolchainState &state,
             const std::function<void()> &f0, const std::function<void(buildcc::BaseTarget &)> &ft,
             const std::function<void(buildcc::FileGenerator &)> &fg, Package &package) {
  buildcc::Reg::Call(true).Func(f0).Build(ft, t).Build(fg, g);
  buildcc::Reg::Toolchain(state).Func(f0).Build(ft, t).Build(fg, g).BuildPackage(package);
}
} // namespace vp_inst

template class buildcc::internal::SourceApi<buildcc::TargetInfo>;
template class buildcc::internal::IncludeApi<buildcc::TargetInfo>;
template class buildcc::internal::PchApi<buildcc::TargetInfo>;
template class buildcc::internal::FlagApi<buildcc::TargetInfo>;
template class buildcc::internal::DepsApi<buildcc::TargetInfo>;
template class buildcc::internal::FlagApi<buildcc::Toolchain>;
