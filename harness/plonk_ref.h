// The value of an expression, written out.  AT: adv(column, rotation), fix(column, rotation), ins(column, rotation), sel(index), chal(index).
#ifndef PLONK_REF_H
#define PLONK_REF_H
template <class F, class AT> static F refeval(const tachyon::zk::Expression<F>* e, const AT& at) {
  using T = tachyon::zk::ExpressionType;
  switch (e->type()) {
    case T::kConstant: return e->ToConstant()->value();
    case T::kNegated: return -refeval<F>(e->ToNegated()->expr(), at);
    case T::kSum: return refeval<F>(e->ToSum()->left(), at) + refeval<F>(e->ToSum()->right(), at);
    case T::kProduct: return refeval<F>(e->ToProduct()->left(), at) * refeval<F>(e->ToProduct()->right(), at);
    case T::kScaled: return refeval<F>(e->ToScaled()->expr(), at) * e->ToScaled()->scale();
    case T::kFixed: return at.fix(e->ToFixed()->query().column().index(), e->ToFixed()->query().rotation().value());
    case T::kAdvice: return at.adv(e->ToAdvice()->query().column().index(), e->ToAdvice()->query().rotation().value());
    case T::kInstance: return at.ins(e->ToInstance()->query().column().index(), e->ToInstance()->query().rotation().value());
    case T::kSelector: return at.sel(e->ToSelector()->selector().index());
    case T::kChallenge: return at.chal(e->ToChallenge()->challenge().index());
    default: sym_assert(false, "an expression of another kind"); return F::Zero();
  }
}
#endif
