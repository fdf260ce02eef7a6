From 1c1fd3f0589cba356137690a968e45953167f203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 001/224] fix: make ViewSpace compile and refuse addVariable
 with an exception

---
 include/opengm/graphicalmodel/space/viewspace.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/graphicalmodel/space/viewspace.hxx b/include/opengm/graphicalmodel/space/viewspace.hxx
index 1aa2da0..4a50eff 100644
--- a/include/opengm/graphicalmodel/space/viewspace.hxx
+++ b/include/opengm/graphicalmodel/space/viewspace.hxx
@@ -63,7 +63,7 @@ ViewSpace<GM>::addVariable(
    const LabelType numberOfLabels
 )
 {
-   opengm::RuntimeError("cannot add Variable with a ViewSpace as a space object");
+   throw opengm::RuntimeError("cannot add Variable with a ViewSpace as a space object");
 }
 
 template<class GM>
@@ -75,7 +75,7 @@ ViewSpace<GM>::numberOfVariables() const
 }
 
 template<class GM>
-inline typename ViewSpace<GM>::IndexType
+inline typename ViewSpace<GM>::LabelType
 ViewSpace<GM>::numberOfLabels
 (
    const IndexType dimension
-- 
2.43.0


From 30cdae0d2ef801708074266bf8ced3124e828020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 002/224] fix: access to a scalar marray by iterator does not
 read a coordinate

---
 include/opengm/datastructures/marray/marray.hxx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index 0c91d2f..0c7764c 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -6482,7 +6482,6 @@ struct AccessOperatorHelper<false>
     {
         v.testInvariant();
         Assert(MARRAY_NO_DEBUG ||    v.data_ != 0 );
-        Assert(MARRAY_NO_DEBUG || v.dimension() != 0 || *it == 0);
         size_t offset;
         v.coordinatesToOffset(it, offset);
         return v.data_[offset];
-- 
2.43.0


From 2e2383b79c251900421180e21db07c1b8a29c66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 003/224] fix: ShapeWalkerSwitchedOrder over zero dimensions
 does not index out of range

---
 include/opengm/utilities/indexing.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/utilities/indexing.hxx b/include/opengm/utilities/indexing.hxx
index f85bc40..1f1f367 100644
--- a/include/opengm/utilities/indexing.hxx
+++ b/include/opengm/utilities/indexing.hxx
@@ -166,6 +166,9 @@ namespace opengm {
       coordinateTuple_(dimension, 0),
       dimension_(dimension) { }
       ShapeWalkerSwitchedOrder & operator++() {
+         if(dimension_ == 0) {
+            return *this;
+         }
          for(size_t d = dimension_-1; true; --d) {
             if( size_t(coordinateTuple_[d]) != (size_t(shapeBegin_[d]) - size_t(1)) ) {
                ++coordinateTuple_[d];
-- 
2.43.0


From f77f48c018896d10d45b5d3a9951b8e488701191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:37 +0000
Subject: [PATCH 004/224] fix: factorAdjacencyList looks up the factors of the
 factor's own variables

---
 include/opengm/graphicalmodel/graphviews/factorgraph.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
index 5ffdac3..f4e7509 100644
--- a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
+++ b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
@@ -927,8 +927,9 @@ FactorGraph<S,I>::templatedFactorAdjacencyList
    out.resize(numberOfFactors());
    for(size_t f=0; f<numberOfFactors(); ++f) {
       for(size_t v=0 ;v<numberOfVariables(f); ++v) {
-         for(size_t ff=0;ff<numberOfFactors(v);++ff) {
-            const size_t fOfVar=factorOfVariable(v,ff);
+         const size_t variable=variableOfFactor(f,v);
+         for(size_t ff=0;ff<numberOfFactors(variable);++ff) {
+            const size_t fOfVar=factorOfVariable(variable,ff);
             if(f!=fOfVar) {
                out[f].insert(fOfVar);
             }
-- 
2.43.0


From 964c822431243a0440f790740754151d2c327258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:37 +0000
Subject: [PATCH 005/224] fix: isConnected skips factors without variables

---
 include/opengm/graphicalmodel/graphviews/factorgraph.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
index f4e7509..302a073 100644
--- a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
+++ b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
@@ -403,7 +403,9 @@ FactorGraph<S,I>::isConnected(marray::Vector<size_t>& representatives) const
       // iterate over all connected variables of factor and merge them to one partition
       const ConstVariableIterator variablesBegin = variablesOfFactorBegin(i);
       const ConstVariableIterator variablesEnd = variablesOfFactorEnd(i);
-      OPENGM_ASSERT(variablesBegin != variablesEnd);
+      if(variablesBegin == variablesEnd) {
+         continue; // factor without variables
+      }
 
       for(ConstVariableIterator iter = variablesBegin + 1; iter != variablesEnd; iter++) {
          connectedComponents.merge(*(iter - 1), *iter);
-- 
2.43.0


From cb165aaa4470dfd13fe7282eb3babd1544ff966f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:37 +0000
Subject: [PATCH 006/224] fix: isGrid picks the diagonal corner correctly and
 verifies the grid it found

---
 .../graphicalmodel/graphviews/factorgraph.hxx | 32 ++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
index 302a073..682d1eb 100644
--- a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
+++ b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
@@ -606,7 +606,7 @@ FactorGraph<S,I>::isGrid(marray::Matrix<size_t>& gridIDs) const {
    // find diagonal corner
    size_t diagonalCorner = 1;
    for(size_t i = 1; i < 4; i++) {
-      if(shortestPaths[i - 1].size() > shortestPaths[diagonalCorner].size()) {
+      if(shortestPaths[i - 1].size() > shortestPaths[diagonalCorner - 1].size()) {
          diagonalCorner = i;
       }
    }
@@ -706,6 +706,36 @@ FactorGraph<S,I>::isGrid(marray::Matrix<size_t>& gridIDs) const {
       }
    }
 
+   // check that the matrix contains each variable once and that the second
+   // order factors are exactly the edges of the grid
+   if(dimension[0] * dimension[1] != numberOfVariables()) {
+      return false;
+   }
+   std::vector<bool> variableUsed(numberOfVariables(), false);
+   for(size_t i = 0; i < dimension[0]; i++) {
+      for(size_t j = 0; j < dimension[1]; j++) {
+         if(variableUsed[gridIDs(i, j)]) {
+            return false;
+         }
+         variableUsed[gridIDs(i, j)] = true;
+         if(i > 0 && !variableVariableConnection(gridIDs(i - 1, j), gridIDs(i, j))) {
+            return false;
+         }
+         if(j > 0 && !variableVariableConnection(gridIDs(i, j - 1), gridIDs(i, j))) {
+            return false;
+         }
+      }
+   }
+   size_t countSecondOrderFactors = 0;
+   for(size_t i = 0; i < numberOfFactors(); i++) {
+      if(numberOfVariables(i) == 2) {
+         countSecondOrderFactors++;
+      }
+   }
+   if(countSecondOrderFactors != dimension[0] * (dimension[1] - 1) + dimension[1] * (dimension[0] - 1)) {
+      return false;
+   }
+
    return true;
 }
 
-- 
2.43.0


From aaf27d168b2bd6e90a19d0e4792ee2bb63edb896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 007/224] fix: a refused factor leaves the model unchanged

---
 .../opengm/graphicalmodel/graphicalmodel.hxx  | 47 ++++++++++++-------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel.hxx b/include/opengm/graphicalmodel/graphicalmodel.hxx
index 4bd5cd6..b6fa5ec 100755
--- a/include/opengm/graphicalmodel/graphicalmodel.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel.hxx
@@ -673,6 +673,21 @@ GraphicalModel<T, OPERATOR, FUNCTION_TYPE_LIST, SPACE>::addFactor
       ++begin;
       ++factorOrder;
    }
+   // check the variable indices before the factor becomes part of the model
+   try {
+      for(IndexType i=0;i<factorOrder;++i) {
+         if(i!=0){
+            OPENGM_CHECK_OP(factorsVis_[indexInVisVector+i-1],<,factorsVis_[indexInVisVector+i],
+               "variable indices of a factor must be sorted");
+         }
+         OPENGM_CHECK_OP(factorsVis_[indexInVisVector+i],<,this->numberOfVariables(),
+            "variable indices of a factor must smaller than gm.numberOfVariables()");
+      }
+   }
+   catch(...) {
+      factorsVis_.resize(indexInVisVector);
+      throw;
+   }
    order_ = std::max(order_,factorOrder);
 
    // create factor
@@ -681,12 +696,6 @@ GraphicalModel<T, OPERATOR, FUNCTION_TYPE_LIST, SPACE>::addFactor
    this->factors_.push_back(FactorType(this, functionIdentifier.functionIndex, functionIdentifier.functionType , factorOrder, indexInVisVector));
    for(size_t i=0;i<factors_.back().numberOfVariables();++i) {
       const FactorType factor =factors_.back();
-      if(i!=0){
-         OPENGM_CHECK_OP(factor.variableIndex(i-1),<,factor.variableIndex(i),
-            "variable indices of a factor must be sorted");
-      }
-      OPENGM_CHECK_OP(factor.variableIndex(i),<,this->numberOfVariables(),
-         "variable indices of a factor must smaller than gm.numberOfVariables()");
       this->variableFactorAdjaceny_[factor.variableIndex(i)].insert(factorIndex);
       //++begin;
    }
@@ -725,6 +734,21 @@ GraphicalModel<T, OPERATOR, FUNCTION_TYPE_LIST, SPACE>::addFactorNonFinalized
       ++begin;
       ++factorOrder;
    }
+   // check the variable indices before the factor becomes part of the model
+   try {
+      for(IndexType i=0;i<factorOrder;++i) {
+         if(i!=0){
+            OPENGM_CHECK_OP(factorsVis_[indexInVisVector+i-1],<,factorsVis_[indexInVisVector+i],
+               "variable indices of a factor must be sorted");
+         }
+         OPENGM_CHECK_OP(factorsVis_[indexInVisVector+i],<,this->numberOfVariables(),
+            "variable indices of a factor must smaller than gm.numberOfVariables()");
+      }
+   }
+   catch(...) {
+      factorsVis_.resize(indexInVisVector);
+      throw;
+   }
    order_ = std::max(order_,factorOrder);
 
 
@@ -733,17 +757,6 @@ GraphicalModel<T, OPERATOR, FUNCTION_TYPE_LIST, SPACE>::addFactorNonFinalized
    const IndexType factorIndex = this->factors_.size();
    this->factors_.push_back(FactorType(this, functionIdentifier.functionIndex, functionIdentifier.functionType , factorOrder, indexInVisVector));
 
-   for(size_t i=0;i<factors_.back().numberOfVariables();++i) {
-      const FactorType factor =factors_.back();
-      if(i!=0){
-         OPENGM_CHECK_OP(factor.variableIndex(i-1),<,factor.variableIndex(i),
-            "variable indices of a factor must be sorted");
-      }
-      OPENGM_CHECK_OP(factor.variableIndex(i),<,this->numberOfVariables(),
-         "variable indices of a factor must smaller than gm.numberOfVariables()");
-      //this->variableFactorAdjaceny_[factor.variableIndex(i)].insert(factorIndex);
-      //++begin;
-   }
    //this->addFactorToAdjacency(functionIdentifier.functionIndex, factorIndex, functionIdentifier.functionType);
    //this->factors_[factorIndex].testInvariant();
    return factorIndex;
-- 
2.43.0


From d537ab4863d9e9bf53a4d6b80079be6ddc538311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:58 +0000
Subject: [PATCH 008/224] fix: order function identifiers lexicographically

---
 include/opengm/graphicalmodel/graphicalmodel.hxx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel.hxx b/include/opengm/graphicalmodel/graphicalmodel.hxx
index b6fa5ec..54545c2 100755
--- a/include/opengm/graphicalmodel/graphicalmodel.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel.hxx
@@ -894,8 +894,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType < rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType < rhs.functionType;
    else 
        return functionIndex < rhs.functionIndex;
 }
@@ -907,8 +907,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType >rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType > rhs.functionType;
    else 
        return functionIndex > rhs.functionIndex;
 }
@@ -920,8 +920,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType <= rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType < rhs.functionType;
    else 
        return functionIndex <= rhs.functionIndex;
 }
@@ -933,8 +933,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType >=rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType > rhs.functionType;
    else 
        return functionIndex >= rhs.functionIndex;
 }
-- 
2.43.0


From f075fbbebe3d59c72ef32e1e59ed09fca2631bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:32 +0000
Subject: [PATCH 009/224] fix: assignment between models with different
 function type lists compiles and drops old functions

---
 .../opengm/graphicalmodel/graphicalmodel.hxx   | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel.hxx b/include/opengm/graphicalmodel/graphicalmodel.hxx
index 54545c2..5361363 100755
--- a/include/opengm/graphicalmodel/graphicalmodel.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel.hxx
@@ -194,6 +194,10 @@ template<size_t>
    friend struct detail_graphical_model::FunctionWrapper;
 template<size_t, size_t , bool>
    friend struct detail_graphical_model::FunctionWrapperExecutor;
+template<bool>
+   friend struct detail_graphical_model::MaybeCopyFunctionVector;
+template<size_t, size_t>
+   friend struct detail_graphical_model::CopyFunctions;
 template<typename GM>
    friend void opengm::hdf5::save(const GM&, const std::string&, const std::string&);
 template<typename GM>
@@ -820,14 +824,14 @@ GraphicalModel<T, OPERATOR, FUNCTION_TYPE_LIST, SPACE>::operator=
 ) {
   
     typedef GraphicalModel<T, OPERATOR, OTHER_TL, SPACE> OtherGm;
-    this->space_ = gm.space_;
-
-    //this->functionDataField_=gm.functionDataField_;
-
-    
-
+    // copy the functions into an empty model first: functions this model held
+    // before are dropped, and a refused assignment leaves this model unchanged
+    GraphicalModel<T, OPERATOR, FUNCTION_TYPE_LIST, SPACE> copied;
     std::vector<int> srcFidToTarget(OtherGm::NrOfFunctionTypes,-1);
-    detail_graphical_model::CopyFunctions<0, OtherGm::NrOfFunctionTypes >::op(gm, *this,srcFidToTarget);
+    detail_graphical_model::CopyFunctions<0, OtherGm::NrOfFunctionTypes >::op(gm, copied,srcFidToTarget);
+
+    this->space_ = gm.space_;
+    this->functionDataField_ = copied.functionDataField_;
 
     this->factors_.resize(gm.factors_.size());
     this->variableFactorAdjaceny_=gm.variableFactorAdjaceny_;    
-- 
2.43.0


From c2ce996521a6c8afcc996b0e03742acf1b6d0c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:14 +0000
Subject: [PATCH 010/224] fix: copies of an explicit storage own their values

---
 .../graphicalmodel/graphicalmodel_explicit_storage.hxx   | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_explicit_storage.hxx b/include/opengm/graphicalmodel/graphicalmodel_explicit_storage.hxx
index 7c46d25..503041e 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_explicit_storage.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_explicit_storage.hxx
@@ -109,6 +109,15 @@ public:
         FunctionIteratation<0,GraphicalModelType::NrOfFunctionTypes,false>::store(*this,currentOffset);
         OPENGM_ASSERT(currentOffset==storageSize);
     }
+    ExplicitStorage(const ExplicitStorage & other)
+    :dataSize_(other.dataSize_),
+    gm_(other.gm_),
+    functionSize_(other.functionSize_),
+    functionTypeStart_(other.functionTypeStart_),
+    functionIndexToStart_(other.functionIndexToStart_),
+    data_(new ValueType[other.dataSize_]){
+        std::copy(other.data_,other.data_+other.dataSize_,data_);
+    }
     ~ExplicitStorage(){
         delete[] data_;
     }
-- 
2.43.0


From 60f8d84256c1ec39bd504ef36b4bf33c6cb30d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:21 +0000
Subject: [PATCH 011/224] fix: count the entries of n-ary functions in size_t

---
 include/opengm/functions/constant.hxx | 4 ++--
 include/opengm/functions/pottsg.hxx   | 4 ++--
 include/opengm/functions/pottsn.hxx   | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/opengm/functions/constant.hxx b/include/opengm/functions/constant.hxx
index 00b8cf6..6809555 100644
--- a/include/opengm/functions/constant.hxx
+++ b/include/opengm/functions/constant.hxx
@@ -91,7 +91,7 @@ ConstantFunction<T, I, L>::ConstantFunction
 )
 :  value_(value),
    shape_(shapeBegin, shapeEnd),
-   size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<ITERATOR>::value_type >()))
+   size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>()))
 {}
 
 template <class T, class I, class L>
@@ -187,7 +187,7 @@ FunctionSerialization< ConstantFunction<T, I, L> >::deserialize
       ++indexInIterator;
       dst.shape_[i]=*indexInIterator;
    }
-   dst.size_=std::accumulate(dst.shape_.begin(), dst.shape_.end(), 1, std::multiplies<size_t>());
+   dst.size_=std::accumulate(dst.shape_.begin(), dst.shape_.end(), static_cast<size_t>(1), std::multiplies<size_t>());
 }
 
 } // namespace opengm
diff --git a/include/opengm/functions/pottsg.hxx b/include/opengm/functions/pottsg.hxx
index 8985555..cbe8d5a 100644
--- a/include/opengm/functions/pottsg.hxx
+++ b/include/opengm/functions/pottsg.hxx
@@ -101,7 +101,7 @@ PottsGFunction<T, I, L>::PottsGFunction
    ITERATOR shapeEnd
 )
 :  shape_(shapeBegin, shapeEnd),
-   size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<ITERATOR>::value_type >()))
+   size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>()))
 {
 
    OPENGM_ASSERT(shape_.size() <= MaximalOrder_);
@@ -124,7 +124,7 @@ PottsGFunction<T, I, L>::PottsGFunction
    ITERATOR2 valuesBegin
 )
 :  shape_(shapeBegin, shapeEnd),
-   size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<ITERATOR>::value_type >()))
+   size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>()))
 {  
    OPENGM_ASSERT(shape_.size() <= MaximalOrder_); 
    if(shape_.size()<=4){
diff --git a/include/opengm/functions/pottsn.hxx b/include/opengm/functions/pottsn.hxx
index a45f01f..fe8022e 100644
--- a/include/opengm/functions/pottsn.hxx
+++ b/include/opengm/functions/pottsn.hxx
@@ -78,7 +78,7 @@ PottsNFunction<T, I, L>::PottsNFunction
    const T valueNotEqual
 )
 :  shape_(shapeBegin, shapeEnd),
-   size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<ITERATOR>::value_type >())),
+   size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
    valueEqual_(valueEqual),
    valueNotEqual_(valueNotEqual)
 {
-- 
2.43.0


From 23ec7620260f5890d9d7b2da54beade60bb0f8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:21 +0000
Subject: [PATCH 012/224] fix: compute the strides of a sparse function in
 size_t

---
 include/opengm/datastructures/sparsemarray/sparsemarray.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/datastructures/sparsemarray/sparsemarray.hxx b/include/opengm/datastructures/sparsemarray/sparsemarray.hxx
index b0cd979..e1f8eb3 100755
--- a/include/opengm/datastructures/sparsemarray/sparsemarray.hxx
+++ b/include/opengm/datastructures/sparsemarray/sparsemarray.hxx
@@ -44,7 +44,7 @@ public:
         shape_.resize(dimension_);
         strides_.resize(dimension_);
         // compute strides
-        LabelType strideVal=1;
+        size_t strideVal=1;
         for(unsigned short  dim=0;dim<dimension_;++dim){
             shape_[dim]=*shapeBegin;
             strides_[dim]=strideVal;
-- 
2.43.0


From 558117976d5f47f25aee7fe55ea32297fc3bcc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:21 +0000
Subject: [PATCH 013/224] fix: store the default experts in the order the
 evaluation reads them

---
 include/opengm/functions/fieldofexperts.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/functions/fieldofexperts.hxx b/include/opengm/functions/fieldofexperts.hxx
index 6c18af4..6a11642 100644
--- a/include/opengm/functions/fieldofexperts.hxx
+++ b/include/opengm/functions/fieldofexperts.hxx
@@ -101,7 +101,7 @@ public:
          alphas_[e] =  a_alpha[e]; 
          OPENGM_ASSERT(   alphas_[e] ==  a_alpha[e]);
          for(size_t i=0; i<4;++i){
-            experts_[e+i*3] = a_expert[e][i];
+            experts_[e*4+i] = a_expert[e][i];
          }
       }
       numLabels_= 256;
-- 
2.43.0


From a17e097cd5c9339c81dacfdcda3e46fb10a948d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:21 +0000
Subject: [PATCH 014/224] fix: field of experts evaluation does not write to
 the function

---
 include/opengm/functions/fieldofexperts.hxx | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/opengm/functions/fieldofexperts.hxx b/include/opengm/functions/fieldofexperts.hxx
index 6a11642..d63f8e9 100644
--- a/include/opengm/functions/fieldofexperts.hxx
+++ b/include/opengm/functions/fieldofexperts.hxx
@@ -41,7 +41,6 @@ protected:
    std::vector<T> alphas_;
    L numLabels_;
    I order_;
-   mutable std::vector<T> l_;
 
 friend class FunctionSerialization<FoEFunction<T, I, L> > ;
 };
@@ -80,7 +79,6 @@ public:
       alphas_.resize(0);
       numLabels_= 0;
       order_ = 0;
-      l_.resize(order_);
    }
 
    template <class T, class I, class L>
@@ -106,7 +104,6 @@ public:
       }
       numLabels_= 256;
       order_ = 4;
-      l_.resize(order_);
    }
 
 
@@ -123,7 +120,6 @@ public:
       alphas_    = a;
       numLabels_ = numL;
       order_     = e.size()/a.size();
-      l_.resize(order_);
       OPENGM_ASSERT(order_*alphas_.size() == experts_.size());
    }
 
@@ -139,7 +135,6 @@ public:
       order_     = numVars;
       experts_.resize(numVars*numExperts);
       alphas_.resize(numExperts);
-      l_.resize(order_);
       for(size_t i=0; i<numVars*numExperts; ++i,++ite)
          experts_[i]  = *ite;
       for(size_t i=0; i<numExperts; ++i,++ita)
@@ -155,17 +150,18 @@ FoEFunction<T, I, L>::operator()
    ITERATOR begin
 ) const {
    //copy/cast one time to avoid additional casts
+   std::vector<T> l(order_);
    for (size_t j = 0; j < order_; ++j) {
-      l_[j] = static_cast<T>(*begin);
+      l[j] = static_cast<T>(*begin);
       ++begin;
-      OPENGM_ASSERT(l_[j]< numLabels_);
+      OPENGM_ASSERT(l[j]< numLabels_);
    }
    ValueType val = 0.0;
    size_t i = 0;
    for (size_t e = 0; e < alphas_.size(); ++e) {
       ValueType dot = 0.0;
       for (size_t j = 0; j < order_; ++j,++i) {
-         dot += experts_[i] * l_[j];
+         dot += experts_[i] * l[j];
       }
       val += alphas_[e] * std::log(1 + 0.5 * dot * dot);
    }
-- 
2.43.0


From 325c12b4257bbbb9d1083a1fbbf01f398a5b6af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 015/224] fix: extrema of a Potts function over single labels

---
 include/opengm/functions/potts.hxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/opengm/functions/potts.hxx b/include/opengm/functions/potts.hxx
index c182463..e7088e7 100644
--- a/include/opengm/functions/potts.hxx
+++ b/include/opengm/functions/potts.hxx
@@ -254,6 +254,9 @@ template<class T, class I, class L>
 inline typename PottsFunction<T, I, L>::ValueType
 PottsFunction<T, I, L>::min() const
 {
+   if(size() == 1) {
+      return valueEqual_; // the only entry is on the diagonal
+   }
    return valueEqual_<valueNotEqual_ ? valueEqual_ :valueNotEqual_;
 }
 
@@ -261,6 +264,9 @@ template<class T, class I, class L>
 inline typename PottsFunction<T, I, L>::ValueType
 PottsFunction<T, I, L>::max() const
 {
+   if(size() == 1) {
+      return valueEqual_; // the only entry is on the diagonal
+   }
    return valueNotEqual_>valueEqual_ ? valueNotEqual_ :valueEqual_;
 }
 
@@ -292,6 +298,9 @@ template<class T, class I, class L>
 inline MinMaxFunctor<typename PottsFunction<T, I, L>::ValueType>
 PottsFunction<T, I, L>::minMax() const
 {
+   if(size() == 1) {
+      return MinMaxFunctor<T>(valueEqual_, valueEqual_);
+   }
    if(valueEqual_<valueNotEqual_) {
       return MinMaxFunctor<T>(valueEqual_, valueNotEqual_);
    }
-- 
2.43.0


From f0e2ef77ea7dc04bc84b6ecd2a53e893a6853212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 016/224] fix: PottsGFunction::isPotts disregards values no
 labeling attains

---
 include/opengm/functions/pottsg.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/functions/pottsg.hxx b/include/opengm/functions/pottsg.hxx
index cbe8d5a..5cf8d80 100644
--- a/include/opengm/functions/pottsg.hxx
+++ b/include/opengm/functions/pottsg.hxx
@@ -288,7 +288,8 @@ PottsGFunction<T, I, L>::isPotts() const
    bool t = true;
    for(size_t i=1; i<values_.size()-1; ++i)
       t &= values_[0] == values_[i];
-   return t;
+   // values of partitions that no labeling attains do not matter
+   return t || FunctionBase<PottsGFunction<T, I, L>, T, I, L>::isPotts();
 }
 
 template<class T, class I, class L>
-- 
2.43.0


From 648136b81dd4e477cb23400c9c6adc6e2f11808c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 017/224] fix: recognise exactly the truncated difference
 functions

---
 .../functions/function_properties_base.hxx    | 32 +++++++++++++++----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/opengm/functions/function_properties_base.hxx b/include/opengm/functions/function_properties_base.hxx
index 68882d5..6705af0 100644
--- a/include/opengm/functions/function_properties_base.hxx
+++ b/include/opengm/functions/function_properties_base.hxx
@@ -302,15 +302,25 @@ FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::isTruncatedSquaredDifference() cons
       //get possible weight
       VALUE weight=f(c);
       //get possible truncation (compute the biggest possible distance => value is the truncation value)
-      c[0]=f.shape(0)-static_cast<LABEL>(1);
+      if(f.shape(0)<f.shape(1)) {
+         c[0]=0;
+         c[1]=f.shape(1)-static_cast<LABEL>(1);
+      }
+      else {
+         c[0]=f.shape(0)-static_cast<LABEL>(1);
+         c[1]=0;
+      }
       VALUE truncated=f(c);
       for( c[1]=0;c[1]<f.shape(1);++c[1]) {
          for( c[0]=0;c[0]<f.shape(0);++c[0]) {
             VALUE d= static_cast<VALUE> (c[0]<c[1] ? c[1]-c[0]:c[0]-c[1]);
             d*=d;
             const VALUE fval=f(c);
-            const VALUE compare=d*weight;
-            if( isNumericEqual(fval, compare  )==false && ((isNumericEqual(fval, truncated) && truncated<compare)==false)) {
+            VALUE compare=d*weight;
+            if(weight<static_cast<VALUE>(0) ? compare<truncated : truncated<compare) {
+               compare=truncated;
+            }
+            if( isNumericEqual(fval, compare  )==false) {
                return false;
             }
          } 
@@ -351,14 +361,24 @@ FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::isTruncatedAbsoluteDifference() con
       //get possible weight
       VALUE weight=f(c);
       //get possible truncation (compute the biggest possible distance => value is the truncation value)
-      c[0]=f.shape(0)-static_cast<LABEL>(1);
+      if(f.shape(0)<f.shape(1)) {
+         c[0]=0;
+         c[1]=f.shape(1)-static_cast<LABEL>(1);
+      }
+      else {
+         c[0]=f.shape(0)-static_cast<LABEL>(1);
+         c[1]=0;
+      }
       VALUE truncated=f(c);
       for( c[1]=0;c[1]<f.shape(1);++c[1]) {
          for( c[0]=0;c[0]<f.shape(0);++c[0]) {
             VALUE d= static_cast<VALUE> (c[0]<c[1] ? c[1]-c[0]:c[0]-c[1]);
             const VALUE fval=f(c);
-            const VALUE compare=d*weight;
-            if( isNumericEqual(fval, compare  )==false && ((isNumericEqual(fval, truncated) && truncated<compare)==false)) {
+            VALUE compare=d*weight;
+            if(weight<static_cast<VALUE>(0) ? compare<truncated : truncated<compare) {
+               compare=truncated;
+            }
+            if( isNumericEqual(fval, compare  )==false) {
                return false;
             }
          } 
-- 
2.43.0


From f7f201f03341727d30a62fa20b12fe8aedbe75fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 018/224] fix: isGeneralizedPotts reads only labels inside the
 domain

---
 .../functions/function_properties_base.hxx    | 121 ++++--------------
 1 file changed, 26 insertions(+), 95 deletions(-)

diff --git a/include/opengm/functions/function_properties_base.hxx b/include/opengm/functions/function_properties_base.hxx
index 6705af0..8584969 100644
--- a/include/opengm/functions/function_properties_base.hxx
+++ b/include/opengm/functions/function_properties_base.hxx
@@ -2,6 +2,7 @@
 #ifndef OPENGM_FUNCTION_PROPERTIES_BASE_HXX
 #define OPENGM_FUNCTION_PROPERTIES_BASE_HXX
 
+#include <algorithm>
 #include <cmath>
 
 #include "opengm/opengm.hxx"
@@ -417,107 +418,37 @@ template<class FUNCTION, class VALUE, class INDEX, class LABEL>
 inline bool 
 FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::isGeneralizedPotts() const {
    const FunctionType& f=*static_cast<FunctionType const *>(this);
-   if(f.dimension()==2) {
-      LABEL l[] = {0, 1};
-      VALUE v0 = f(l);
-      l[1]=0;
-      VALUE v1 = f(l);
-      for(l[0]=0;l[0]<f.shape(0);++l[0]) {
-         for(l[1]=0;l[1]<f.shape(1);++l[1]) {
-            if((l[0]==l[1] && f(l)!=v1) || ((l[0]!=l[1] && f(l)!=v0)) ) return false;
-         }
-      }
-      return true;
+   const size_t dim=f.dimension();
+   if(dim<2 || dim>4) {
+      return false;
    }
-   else  if(f.dimension()==3) {
-      LABEL l[] = {0, 1, 2};
-      VALUE v000 = f(l);
-      l[2]=0; l[1]=1; l[0]=1;
-      VALUE v001 = f(l);
-      l[2]=1; l[1]=0; l[0]=1;
-      VALUE v010 = f(l);
-      l[2]=1; l[1]=1; l[0]=0;
-      VALUE v100 = f(l); 
-      l[2]=0; l[1]=0; l[0]=0;
-      VALUE v111 = f(l);
-      for(l[0]=0;l[0]<f.shape(0);++l[0]) {
-         for(l[1]=0;l[1]<f.shape(1);++l[1]) { 
-            for(l[2]=0;l[2]<f.shape(2);++l[2]) {
-               if((l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v000) ) return false;
-               if((l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v001) ) return false;
-               if((l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v010) ) return false;
-               if((l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v100) ) return false;
-               if((l[1]==l[2] && l[0]==l[2]  && l[0]==l[1] && f(l)!=v111) ) return false;
+   // one value per equality pattern of the labels (at most 6 label pairs)
+   bool known[64];
+   VALUE values[64];
+   std::fill(known, known+64, false);
+   ShapeWalker<FunctionShapeIteratorType> shapeWalker(f.functionShapeBegin(), dim);
+   const size_t size=f.size();
+   for(size_t n=0;n<size;++n, ++shapeWalker) {
+      size_t pattern=0;
+      size_t bit=1;
+      for(size_t i=1;i<dim;++i) {
+         for(size_t j=0;j<i;++j) {
+            if(shapeWalker.coordinateTuple()[i]==shapeWalker.coordinateTuple()[j]) {
+               pattern+=bit;
             }
+            bit*=2;
          }
       }
-      return true;
-   } 
-   else  if(f.dimension()==4) {
-      LABEL l[] = {0, 1, 2, 3};
-      VALUE v000000 = f(l);
-      l[3]=2; l[2]=1; l[1]=0;l[0]=0;
-      VALUE v000001 = f(l);
-      l[3]=2; l[2]=0; l[1]=1;l[0]=0;
-      VALUE v000010 = f(l);
-      l[3]=2; l[2]=0; l[1]=0;l[0]=1;
-      VALUE v000100 = f(l); 
-      l[3]=1; l[2]=0; l[1]=0;l[0]=0; //3-1
-      VALUE v000111 = f(l);
-      l[3]=0; l[2]=1; l[1]=2; l[0]=0;
-      VALUE v001000 = f(l);
-      l[3]=0; l[2]=1; l[1]=1; l[0]=0;
-      VALUE v001100 = f(l);
-      l[3]=0; l[2]=1; l[1]=0; l[0]=0; //3-1
-      VALUE v011001 = f(l);
-      l[3]=0; l[2]=0; l[1]=0; l[0]=1; //3-1
-      VALUE v110100 = f(l); 
-      l[3]=0; l[2]=0; l[1]=0; l[0]=0;
-      VALUE v111111 = f(l);
-      l[3]=1; l[2]=1; l[1]=0; l[0]=0;
-      VALUE v100001 = f(l); 
-      l[3]=1; l[2]=0; l[1]=1; l[0]=0;
-      VALUE v010010 = f(l); 
-      l[3]=0; l[2]=0; l[1]=1; l[0]=2;
-      VALUE v100000 = f(l); 
-      l[3]=0; l[2]=1; l[1]=0; l[0]=2;
-      VALUE v010000 = f(l);
-      l[3]=0; l[2]=0; l[1]=1; l[0]=0; //3-1
-      VALUE v101010 = f(l); 
-
-
-      for(l[0]=0;l[0]<f.shape(0);++l[0]) {
-         for(l[1]=0;l[1]<f.shape(1);++l[1]) { 
-            for(l[2]=0;l[2]<f.shape(2);++l[2]) { 
-               for(l[3]=0;l[3]<f.shape(3);++l[3]) {
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v000000) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v000001) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v000010) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v000100) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]==l[2] && l[0]==l[2]  && l[0]==l[1] && f(l)!=v000111) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]==l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v001000) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]==l[3] && l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v001100) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]!=l[3] && l[1]==l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v010010) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]==l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v010000) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]==l[3] && l[0]==l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v011001) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]==l[3] && l[1]==l[3] && l[0]!=l[3] && l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v110100) ) {std::cout<<"1"; return false;}
-                  if((l[2]==l[3] && l[1]==l[3] && l[0]==l[3] && l[1]==l[2] && l[0]==l[2]  && l[0]==l[1] && f(l)!=v111111) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]==l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v100001) ) {std::cout<<"1"; return false;}
-                  if((l[2]==l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v100000) ) {std::cout<<"1"; return false;}
-                  if((l[2]==l[3] && l[1]!=l[3] && l[0]==l[3] && l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v101010) ) {std::cout<<"1"; return false;}
-               }
-            }
-         }
+      const VALUE value=f(shapeWalker.coordinateTuple().begin());
+      if(!known[pattern]) {
+         known[pattern]=true;
+         values[pattern]=value;
+      }
+      else if(value!=values[pattern]) {
+         return false;
       }
-      return true;
-   }
-   else{
-      return false;
    }
+   return true;
 }
 
 template<class FUNCTION, class VALUE, class INDEX, class LABEL>
-- 
2.43.0


From 98aefa53cf79f0aec40f2759b339aae0d160297e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 019/224] fix: equal infinite values compare equal

---
 include/opengm/functions/function_properties_base.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/functions/function_properties_base.hxx b/include/opengm/functions/function_properties_base.hxx
index 8584969..e185d76 100644
--- a/include/opengm/functions/function_properties_base.hxx
+++ b/include/opengm/functions/function_properties_base.hxx
@@ -27,6 +27,9 @@ namespace opengm {
     
 template<class T>
 inline bool isNumericEqual(const T a, const T b) {
+   if(a == b) {
+      return true; // also for infinite values
+   }
    if(meta::IsFloatingPoint<T>::value) {
       if(a < b) {
          return b-a<OPENGM_FLOAT_TOL ? true : false;
-- 
2.43.0


From e51eca0eef591413cb6f2cdd6265656bd41348a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 020/224] fix: iterate over function values with a counter that
 can hold the size

---
 include/opengm/functions/function_properties_base.hxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/opengm/functions/function_properties_base.hxx b/include/opengm/functions/function_properties_base.hxx
index e185d76..8ecbbb5 100644
--- a/include/opengm/functions/function_properties_base.hxx
+++ b/include/opengm/functions/function_properties_base.hxx
@@ -165,7 +165,7 @@ FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::operator==
       }
       // compare all values
       ShapeWalker<FunctionShapeIteratorType> shapeWalker(fa.functionShapeBegin(), dimA);
-      for(INDEX i=0;i<fa.size();++i, ++shapeWalker) {
+      for(size_t i=0;i<fa.size();++i, ++shapeWalker) {
         if(isNumericEqual(fa(shapeWalker.coordinateTuple().begin()), fb(shapeWalker.coordinateTuple().begin()))==false) {
            return false;
         }
@@ -186,7 +186,7 @@ FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::forAllValuesInOrderWithCoordinate
 ) const {
    const FunctionType& f=*static_cast<FunctionType const *>(this);
    ShapeWalker<FunctionShapeIteratorType> shapeWalker(f.functionShapeBegin(), f.dimension());
-   for(INDEX i=0;i<f.size();++i, ++shapeWalker) {
+   for(size_t i=0;i<f.size();++i, ++shapeWalker) {
       functor(f(shapeWalker.coordinateTuple().begin()),shapeWalker.coordinateTuple().begin());
    }
 }
@@ -221,7 +221,7 @@ FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::forAllValuesInOrder
 ) const {
    const FunctionType& f=*static_cast<FunctionType const *>(this);
    ShapeWalker<FunctionShapeIteratorType> shapeWalker(f.functionShapeBegin(), f.dimension());
-   for(INDEX i=0;i<f.size();++i, ++shapeWalker) {
+   for(size_t i=0;i<f.size();++i, ++shapeWalker) {
       functor(f(shapeWalker.coordinateTuple().begin()));
    }
 }
@@ -235,7 +235,7 @@ FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::forAllValuesInSwitchedOrder
 ) const {
    const FunctionType& f=*static_cast<FunctionType const *>(this);
    ShapeWalkerSwitchedOrder<FunctionShapeIteratorType> shapeWalker(f.functionShapeBegin(), f.dimension());
-   for(INDEX i=0;i<f.size();++i, ++shapeWalker) {
+   for(size_t i=0;i<f.size();++i, ++shapeWalker) {
       functor(f(shapeWalker.coordinateTuple().begin()));
    }
 }
@@ -402,7 +402,7 @@ FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::isPotts() const {
    ++shapeWalker;
    VALUE vNotEqual=f(shapeWalker.coordinateTuple().begin());
    ++shapeWalker;
-   for(INDEX i=2;i<f.size();++i, ++shapeWalker) {
+   for(size_t i=2;i<f.size();++i, ++shapeWalker) {
       // all labels are equal
       if(isEqualValueVector(shapeWalker.coordinateTuple()) ) {
          if(vEqual!=f(shapeWalker.coordinateTuple().begin()))
-- 
2.43.0


From 0252384bb810989c1a3ebb5efa7708d561b4eb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:24 +0000
Subject: [PATCH 021/224] fix: empty dynamic single-site functions own nothing
 and serialise their size

---
 include/opengm/functions/singlesitefunction.hxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/opengm/functions/singlesitefunction.hxx b/include/opengm/functions/singlesitefunction.hxx
index 2d02123..bdc7293 100644
--- a/include/opengm/functions/singlesitefunction.hxx
+++ b/include/opengm/functions/singlesitefunction.hxx
@@ -141,7 +141,7 @@ public:
    typedef T value_type;
 
    DynamicSingleSiteFunction(const size_t size = 0)
-      :  size_(size)
+      :  dataPointer_(NULL), size_(size)
       {
          if(size_ != 0){
             dataPointer_ = new T[size];
@@ -149,7 +149,7 @@ public:
       }
 
    DynamicSingleSiteFunction(const size_t size, ValueType value)
-      :  size_(size)
+      :  dataPointer_(NULL), size_(size)
       {
          if(size_ != 0) {
             dataPointer_ = new T[size];
@@ -165,6 +165,7 @@ public:
       }
 
    DynamicSingleSiteFunction(const DynamicSingleSiteFunction & other)
+      :  dataPointer_(NULL)
       {
          if(other.size_ != 0) {
             dataPointer_ = new T[other.size_];
@@ -193,6 +194,7 @@ public:
                   std::copy(other.dataPointer_, other.dataPointer_+size_, dataPointer_);
                }
                else {
+                  dataPointer_ = NULL;
                   size_ = 0;
                }
             }
@@ -212,6 +214,7 @@ public:
                size_=size;
             }
             else {
+               dataPointer_ = NULL;
                size_ = 0;
             }
          }
@@ -227,6 +230,7 @@ public:
                std::fill(dataPointer_, dataPointer_+size_, value);
             }
             else {
+               dataPointer_ = NULL;
                size_=0;
             }
          }
@@ -340,6 +344,7 @@ public:
 
    template<class INDEX_OUTPUT_ITERATOR, class VALUE_OUTPUT_ITERATOR >
       static void serialize(const  DynamicSingleSiteFunction<T>  & f, INDEX_OUTPUT_ITERATOR ii, VALUE_OUTPUT_ITERATOR vi){
+      *ii=f.size();
       for(size_t i=0;i<f.size();++i){
          size_t c[]={i};
          *vi=f(c);
-- 
2.43.0


From 51309ca0afa5b3ec52c6341d31ae9e5a3e99d9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:15 +0000
Subject: [PATCH 022/224] fix: gmToFactorLabelsBegin compiles

---
 include/opengm/graphicalmodel/graphicalmodel_factor.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
index b2fa38b..bc7723e 100755
--- a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
@@ -205,6 +205,7 @@ public:
     typename GmToFactorLabelIter<LABEL_ITER>::Iter
     gmToFactorLabelsBegin(LABEL_ITER gmLabelsBegin)const{
         typedef typename GmToFactorLabelIter<LABEL_ITER>::Accessor Accessor;
+        typedef typename GmToFactorLabelIter<LABEL_ITER>::Iter Iter;
         Accessor accessor(variableIndicesBegin(),variableIndicesEnd(), gmLabelsBegin);
         return Iter(accessor, 0);
     }
-- 
2.43.0


From 478e0377093501bedbfe2f5b8adaeb3329a65302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:15 +0000
Subject: [PATCH 023/224] fix: an assigned factor refers to the model of its
 source

---
 include/opengm/graphicalmodel/graphicalmodel_factor.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
index bc7723e..e5de079 100755
--- a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
@@ -485,6 +485,7 @@ Factor<GRAPHICAL_MODEL>::operator=
 )
 {
    if(&src != this) {
+      gm_ = src.gm_;
       functionTypeId_ = src.functionTypeId_;
       functionIndex_ = src.functionIndex_;
       //variableIndices_ = src.variableIndices_;
-- 
2.43.0


From 7cadaaa805a932d96aa8ccae6a42c886b3ec7e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:40 +0000
Subject: [PATCH 024/224] fix: independent factors of non-default types can be
 assigned from factors

---
 include/opengm/graphicalmodel/graphicalmodel_factor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
index e5de079..1bf81b7 100755
--- a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
@@ -1234,7 +1234,7 @@ IndependentFactor<T, I, L>::operator=
    }
    else {
       size_t indexToScalar[]={0};
-      function_=ExplicitFunction<T>(src(indexToScalar));
+      function_=ExplicitFunction<T, I, L>(src(indexToScalar));
    }
   return * this;
 }
-- 
2.43.0


From 22c88bd039bf8443b3a6ff8cac156e5225223d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:22 +0000
Subject: [PATCH 025/224] fix: the Potts property of a function stays in its
 domain

---
 include/opengm/functions/function_properties.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opengm/functions/function_properties.hxx b/include/opengm/functions/function_properties.hxx
index 8bee98e..836f15d 100644
--- a/include/opengm/functions/function_properties.hxx
+++ b/include/opengm/functions/function_properties.hxx
@@ -64,12 +64,15 @@ class BinaryFunctionProperties<BinaryProperties::IsPotts, FUNCTION> {
    OPENGM_FUNCTION_TYPEDEF_MACRO;
 public:
    static bool op(const FunctionType & f) {
+      if(f.size() <= 2) {
+         return true;
+      }
       ShapeWalker<FunctionShapeIteratorType> shapeWalker(f.functionShapeBegin(), f.dimension());
       ValueType vEqual = f(shapeWalker.coordinateTuple().begin());
       ++shapeWalker;
       ValueType vNotEqual = f(shapeWalker.coordinateTuple().begin());
       ++shapeWalker;
-      for (IndexType i = 2; i < f.size(); ++i, ++shapeWalker) {
+      for (size_t i = 2; i < f.size(); ++i, ++shapeWalker) {
          // all labels are equal
          if (isEqualValueVector(shapeWalker.coordinateTuple())) {
             if (vEqual != f(shapeWalker.coordinateTuple().begin()))
-- 
2.43.0


From a333a3447248ca69ea4543c2767699ae811d8340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:17 +0000
Subject: [PATCH 026/224] fix: variables can be fixed in any order in a view
 function

---
 include/opengm/functions/view_fix_variables_function.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/opengm/functions/view_fix_variables_function.hxx b/include/opengm/functions/view_fix_variables_function.hxx
index ddeda76..cc22604 100644
--- a/include/opengm/functions/view_fix_variables_function.hxx
+++ b/include/opengm/functions/view_fix_variables_function.hxx
@@ -2,6 +2,9 @@
 #ifndef OPENGM_VIEW_FIX_VARIABLES_FUNCTION_HXX
 #define OPENGM_VIEW_FIX_VARIABLES_FUNCTION_HXX
 
+#include <algorithm>
+#include <vector>
+
 #include "opengm/functions/function_properties_base.hxx"
 
 namespace opengm {
@@ -10,6 +13,7 @@ namespace opengm {
 template<class I, class L>
 struct PositionAndLabel {
    PositionAndLabel(const I = 0, const L = 0);
+   bool operator<(const PositionAndLabel& other) const { return position_ < other.position_; }
    I position_;
    L label_;
 };
@@ -86,6 +90,7 @@ ViewFixVariablesFunction<GM>::ViewFixVariablesFunction
          OPENGM_ASSERT(positionAndLabels_[i].label_ < factor_->numberOfLabels(positionAndLabels_[i].position_));
       }
    }
+   std::sort(positionAndLabels_.begin(), positionAndLabels_.end());
    for(size_t ind=0; ind<lookUp_.size(); ++ind) {
       size_t add=0;
       for(IndexType i=0; i<positionAndLabels_.size(); ++i) {
@@ -121,6 +126,7 @@ ViewFixVariablesFunction<GM>::ViewFixVariablesFunction
          OPENGM_ASSERT(positionAndLabels_[i].label_ < factor_->numberOfLabels(positionAndLabels_[i].position_));
       }
    }
+   std::sort(positionAndLabels_.begin(), positionAndLabels_.end());
    for(size_t ind=0; ind<lookUp_.size(); ++ind) {
       size_t add = 0;
       for(IndexType i=0; i<positionAndLabels_.size(); ++i) {
-- 
2.43.0


From 82181151b1fa6f74e54e346c0a60fb8bb662d9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:35 +0000
Subject: [PATCH 027/224] fix: evaluating a function with fixed variables does
 not write to it

---
 .../functions/view_fix_variables_function.hxx | 32 ++++++-------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/include/opengm/functions/view_fix_variables_function.hxx b/include/opengm/functions/view_fix_variables_function.hxx
index cc22604..505f8a8 100644
--- a/include/opengm/functions/view_fix_variables_function.hxx
+++ b/include/opengm/functions/view_fix_variables_function.hxx
@@ -46,9 +46,6 @@ public:
 private:
    FactorType const* factor_;
    std::vector<PositionAndLabel<IndexType, LabelType> > positionAndLabels_;
-   mutable std::vector<LabelType> iteratorBuffer_;
-   mutable bool computedSize_;
-   mutable size_t size_;
    std::vector<size_t> lookUp_;
 };
 
@@ -65,10 +62,7 @@ PositionAndLabel<I, L>::PositionAndLabel
 template<class GM>
 inline
 ViewFixVariablesFunction<GM>::ViewFixVariablesFunction()
-:  factor_(NULL),
-   iteratorBuffer_(),
-   computedSize_(false),
-   size_(1)
+:  factor_(NULL)
 {}
 
 template<class GM>
@@ -80,9 +74,6 @@ ViewFixVariablesFunction<GM>::ViewFixVariablesFunction
 )
 :  factor_(&factor),
    positionAndLabels_(positionAndLabels),
-   iteratorBuffer_(factor.numberOfVariables()),
-   computedSize_(false),
-   size_(1),
    lookUp_(factor.numberOfVariables()-positionAndLabels.size())
 {
    if(opengm::NO_DEBUG==false) {
@@ -116,9 +107,6 @@ ViewFixVariablesFunction<GM>::ViewFixVariablesFunction
 )
 :  factor_(&factor),
    positionAndLabels_(positionAndLabels.begin(), positionAndLabels.end()),
-   iteratorBuffer_(factor.numberOfVariables()),
-   computedSize_(false),
-   size_(1),
    lookUp_(factor.numberOfVariables()-positionAndLabels.size())
 {
    if(!(opengm::NO_DEBUG)) {
@@ -147,15 +135,16 @@ ViewFixVariablesFunction<GM>::operator()
 ) const
 {
    OPENGM_ASSERT(factor_ != NULL);
+   std::vector<LabelType> iteratorBuffer(lookUp_.size() + positionAndLabels_.size() + 1);
    for(size_t ind=0; ind<lookUp_.size(); ++ind) {
-      iteratorBuffer_[lookUp_[ind]]=*begin;
+      iteratorBuffer[lookUp_[ind]]=*begin;
       ++begin;
    }
    for(size_t i=0; i<positionAndLabels_.size(); ++i) {
-      iteratorBuffer_[positionAndLabels_[i].position_]
+      iteratorBuffer[positionAndLabels_[i].position_]
          = positionAndLabels_[i].label_;
    }
-   return factor_->operator()(iteratorBuffer_.begin());
+   return factor_->operator()(iteratorBuffer.begin());
 }
 
 template<class GM>
@@ -189,14 +178,11 @@ inline typename ViewFixVariablesFunction<GM>::IndexType
 ViewFixVariablesFunction<GM>::size() const
 {
    OPENGM_ASSERT(factor_!=NULL);
-   if(computedSize_== false) {
-      size_ = factor_->size();
-      for(IndexType j=0; j<positionAndLabels_.size(); ++j) {
-         size_ /= (factor_->numberOfLabels(positionAndLabels_[j].position_));
-      }
-      computedSize_ = true;
+   size_t size = factor_->size();
+   for(size_t j=0; j<positionAndLabels_.size(); ++j) {
+      size /= factor_->numberOfLabels(positionAndLabels_[j].position_);
    }
-   return size_;
+   return size;
 }
 
 } // namespace opengm
-- 
2.43.0


From 8eb8d502bdb6783d3614f05efcd27fbd956da155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:35 +0000
Subject: [PATCH 028/224] fix: constraint functions count their entries in
 size_t

---
 .../functions/constraint_functions/label_order_function.hxx   | 4 ++--
 .../constraint_functions/linear_constraint_function.hxx       | 4 ++--
 .../constraint_functions/num_labels_limitation_function.hxx   | 2 +-
 .../soft_constraint_functions/label_cost_function.hxx         | 4 ++--
 .../soft_constraint_functions/sum_constraint_function.hxx     | 2 +-
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/opengm/functions/constraint_functions/label_order_function.hxx b/include/opengm/functions/constraint_functions/label_order_function.hxx
index 09102ed..2f0a7a5 100644
--- a/include/opengm/functions/constraint_functions/label_order_function.hxx
+++ b/include/opengm/functions/constraint_functions/label_order_function.hxx
@@ -487,7 +487,7 @@ inline LabelOrderFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::LabelOrderFunctio
 template<class VALUE_TYPE, class INDEX_TYPE, class LABEL_TYPE>
 inline LabelOrderFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::LabelOrderFunction(const LabelType numLabelsVar1, const LabelType numLabelsVar2, const LabelOrderType& labelOrder, const ValueType returnValid, const ValueType returnInvalid)
    : numLabelsVar1_(numLabelsVar1), numLabelsVar2_(numLabelsVar2),
-     size_(numLabelsVar1_ * numLabelsVar2_), labelOrder_(labelOrder),
+     size_(static_cast<size_t>(numLabelsVar1_) * numLabelsVar2_), labelOrder_(labelOrder),
      returnValid_(returnValid), returnInvalid_(returnInvalid),
      constraints_((useSingleConstraint_ ? 1 : 0) + (useMultipleConstraints_ ? numLabelsVar1_ : 0)),
      violatedConstraintsIds_((useSingleConstraint_ ? 1 : 0) + (useMultipleConstraints_ ? numLabelsVar1_ : 0)),
@@ -510,7 +510,7 @@ template<class VALUE_TYPE, class INDEX_TYPE, class LABEL_TYPE>
 template <class ITERATOR_TYPE>
 inline LabelOrderFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::LabelOrderFunction(const LabelType numLabelsVar1, const LabelType numLabelsVar2, ITERATOR_TYPE labelOrderBegin, const ValueType returnValid, const ValueType returnInvalid)
    : numLabelsVar1_(numLabelsVar1), numLabelsVar2_(numLabelsVar2),
-     size_(numLabelsVar1_ * numLabelsVar2_),
+     size_(static_cast<size_t>(numLabelsVar1_) * numLabelsVar2_),
      labelOrder_(labelOrderBegin, labelOrderBegin + std::max(numLabelsVar1_, numLabelsVar2_)),
      returnValid_(returnValid), returnInvalid_(returnInvalid),
      constraints_((useSingleConstraint_ ? 1 : 0) + (useMultipleConstraints_ ? numLabelsVar1_ : 0)),
diff --git a/include/opengm/functions/constraint_functions/linear_constraint_function.hxx b/include/opengm/functions/constraint_functions/linear_constraint_function.hxx
index 6fde8f2..a5ee790 100644
--- a/include/opengm/functions/constraint_functions/linear_constraint_function.hxx
+++ b/include/opengm/functions/constraint_functions/linear_constraint_function.hxx
@@ -439,7 +439,7 @@ template<class VALUE_TYPE, class INDEX_TYPE, class LABEL_TYPE>
 template <class SHAPE_ITERATOR_TYPE>
 inline LinearConstraintFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::LinearConstraintFunction(SHAPE_ITERATOR_TYPE shapeBegin, SHAPE_ITERATOR_TYPE shapeEnd, const LinearConstraintsContainerType& constraints, const ValueType returnValid, const ValueType returnInvalid)
    : shape_(shapeBegin, shapeEnd),
-     size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+     size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
      constraints_(constraints), violatedConstraintsIds_(constraints_.size()),
      violatedConstraintsWeights_(constraints_.size()),
      returnValid_(returnValid), returnInvalid_(returnInvalid),
@@ -457,7 +457,7 @@ template<class VALUE_TYPE, class INDEX_TYPE, class LABEL_TYPE>
 template <class SHAPE_ITERATOR_TYPE, class CONSTRAINTS_ITERATOR_TYPE>
 inline LinearConstraintFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::LinearConstraintFunction(SHAPE_ITERATOR_TYPE shapeBegin, SHAPE_ITERATOR_TYPE shapeEnd, CONSTRAINTS_ITERATOR_TYPE constraintsBegin, CONSTRAINTS_ITERATOR_TYPE constraintsEnd, const ValueType returnValid, const ValueType returnInvalid)
    : shape_(shapeBegin, shapeEnd),
-     size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+     size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
      constraints_(constraintsBegin, constraintsEnd),
      violatedConstraintsIds_(constraints_.size()),
      violatedConstraintsWeights_(constraints_.size()),
diff --git a/include/opengm/functions/constraint_functions/num_labels_limitation_function.hxx b/include/opengm/functions/constraint_functions/num_labels_limitation_function.hxx
index 735e3fd..ba4cd4f 100644
--- a/include/opengm/functions/constraint_functions/num_labels_limitation_function.hxx
+++ b/include/opengm/functions/constraint_functions/num_labels_limitation_function.hxx
@@ -456,7 +456,7 @@ inline NumLabelsLimitationFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::NumLabel
   useSameNumLabels_(numVariables_ > 0 ? std::equal(shape_.begin() + 1, shape_.end(), shape_.begin()) : true),
   maxNumLabels_(numVariables_ > 0 ? *std::max_element(shape_.begin(), shape_.end()) : 0),
   maxNumUsedLabels_(maxNumUsedLabels),
-  size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+  size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
   returnValid_(returnValid), returnInvalid_(returnInvalid),
   constraints_(1), violatedConstraintsIds_(1), violatedConstraintsWeights_(1),
   indicatorVariableList_(maxNumLabels_) {
diff --git a/include/opengm/functions/soft_constraint_functions/label_cost_function.hxx b/include/opengm/functions/soft_constraint_functions/label_cost_function.hxx
index 11a1ba1..f811bee 100644
--- a/include/opengm/functions/soft_constraint_functions/label_cost_function.hxx
+++ b/include/opengm/functions/soft_constraint_functions/label_cost_function.hxx
@@ -294,7 +294,7 @@ inline LabelCostFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::LabelCostFunction(
    : shape_(shapeBegin, shapeEnd), numVariables_(shape_.size()),
      maxNumLabels_(numVariables_ > 0 ? *std::max_element(shape_.begin(), shape_.end()) : 0),
      useSameNumLabels_(numVariables_ > 0 ? std::equal(shape_.begin() + 1, shape_.end(), shape_.begin()) : true),
-     size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+     size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
      costs_(costsBegin, costsEnd), useSingleCost_(false), singleLabel_(),
      singleCost_() {
    OPENGM_ASSERT(costs_.size() >= maxNumLabels_);
@@ -306,7 +306,7 @@ inline LabelCostFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::LabelCostFunction(
    : shape_(shapeBegin, shapeEnd), numVariables_(shape_.size()),
      maxNumLabels_(numVariables_ > 0 ? *std::max_element(shape_.begin(), shape_.end()) : 0),
      useSameNumLabels_(numVariables_ > 0 ? std::equal(shape_.begin() + 1, shape_.end(), shape_.begin()) : true),
-     size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+     size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
      costs_(), useSingleCost_(true), singleLabel_(label), singleCost_(cost) {
    OPENGM_ASSERT(singleLabel_ < maxNumLabels_);
 }
diff --git a/include/opengm/functions/soft_constraint_functions/sum_constraint_function.hxx b/include/opengm/functions/soft_constraint_functions/sum_constraint_function.hxx
index 74c233f..7459633 100644
--- a/include/opengm/functions/soft_constraint_functions/sum_constraint_function.hxx
+++ b/include/opengm/functions/soft_constraint_functions/sum_constraint_function.hxx
@@ -312,7 +312,7 @@ inline SumConstraintFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::SumConstraintF
    : shape_(shapeBegin, shapeEnd), numVariables_(shape_.size()),
      useSameNumLabels_(numVariables_ > 0 ? std::equal(shape_.begin() + 1, shape_.end(), shape_.begin()) : true),
      maxNumLabels_(numVariables_ > 0 ? *std::max_element(shape_.begin(), shape_.end()) : 0),
-     size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+     size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
      coefficients_(coefficientsBegin, coefficientsEnd),
      shareCoefficients_(shareCoefficients), coefficientsOffsets_(),
      lambda_(lambda), bound_(bound) {
-- 
2.43.0


From ec8a5179d76c12b539cfad8285d504466aad5d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:54 +0000
Subject: [PATCH 029/224] fix: order indicator variables lexicographically

---
 .../datastructures/indicator_variable.hxx     | 44 +++++++++----------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/include/opengm/datastructures/indicator_variable.hxx b/include/opengm/datastructures/indicator_variable.hxx
index e151794..bbb56ca 100644
--- a/include/opengm/datastructures/indicator_variable.hxx
+++ b/include/opengm/datastructures/indicator_variable.hxx
@@ -575,14 +575,13 @@ bool operator<(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1,
             return false;
          }
          for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first > indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second >= indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
+            if(indicatorVar1.variableLabelPairs_[i].first != indicatorVar2.variableLabelPairs_[i].first) {
+               return indicatorVar1.variableLabelPairs_[i].first < indicatorVar2.variableLabelPairs_[i].first;
+            } else if(indicatorVar1.variableLabelPairs_[i].second != indicatorVar2.variableLabelPairs_[i].second) {
+               return indicatorVar1.variableLabelPairs_[i].second < indicatorVar2.variableLabelPairs_[i].second;
             }
          }
+         return false;
       }
       return true;
    }
@@ -603,14 +602,13 @@ bool operator>(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1,
             return false;
          }
          for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first < indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second <= indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
+            if(indicatorVar1.variableLabelPairs_[i].first != indicatorVar2.variableLabelPairs_[i].first) {
+               return indicatorVar1.variableLabelPairs_[i].first > indicatorVar2.variableLabelPairs_[i].first;
+            } else if(indicatorVar1.variableLabelPairs_[i].second != indicatorVar2.variableLabelPairs_[i].second) {
+               return indicatorVar1.variableLabelPairs_[i].second > indicatorVar2.variableLabelPairs_[i].second;
             }
          }
+         return false;
       }
       return true;
    }
@@ -628,14 +626,13 @@ bool operator<=(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1
       }
       if(indicatorVar1.variableLabelPairs_.size() == indicatorVar2.variableLabelPairs_.size()) {
          for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first > indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second > indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
+            if(indicatorVar1.variableLabelPairs_[i].first != indicatorVar2.variableLabelPairs_[i].first) {
+               return indicatorVar1.variableLabelPairs_[i].first < indicatorVar2.variableLabelPairs_[i].first;
+            } else if(indicatorVar1.variableLabelPairs_[i].second != indicatorVar2.variableLabelPairs_[i].second) {
+               return indicatorVar1.variableLabelPairs_[i].second < indicatorVar2.variableLabelPairs_[i].second;
             }
          }
+         return true;
       }
       return true;
    }
@@ -653,14 +650,13 @@ bool operator>=(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1
       }
       if(indicatorVar1.variableLabelPairs_.size() == indicatorVar2.variableLabelPairs_.size()) {
          for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first < indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second < indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
+            if(indicatorVar1.variableLabelPairs_[i].first != indicatorVar2.variableLabelPairs_[i].first) {
+               return indicatorVar1.variableLabelPairs_[i].first > indicatorVar2.variableLabelPairs_[i].first;
+            } else if(indicatorVar1.variableLabelPairs_[i].second != indicatorVar2.variableLabelPairs_[i].second) {
+               return indicatorVar1.variableLabelPairs_[i].second > indicatorVar2.variableLabelPairs_[i].second;
             }
          }
+         return true;
       }
       return true;
    }
-- 
2.43.0


From 3695acc47ff899ac58719911c16c88c5dbfdf83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:54 +0000
Subject: [PATCH 030/224] fix: deserialising a weighted sum of functions fills
 the function

---
 .../opengm/functions/learnable/lweightedsum_of_functions.hxx   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/functions/learnable/lweightedsum_of_functions.hxx b/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
index 62314f4..9debad5 100644
--- a/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
+++ b/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
@@ -257,6 +257,9 @@ FunctionSerialization<opengm::functions::learnable::LWeightedSumOfFunctions<T, I
          ++valueInIterator;
       }
    }   
+   dst.shape_ = shape;
+   dst.weightIDs_ = parameterIDs;
+   dst.feat_ = feat;
 }
 
 } // namespace opengm
-- 
2.43.0


From dbf3d72f1cd495c4a8a23a49d8f9a18336669e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:38 +0000
Subject: [PATCH 031/224] fix: the integer power helper can be included in
 several translation units

---
 include/opengm/utilities/unsigned_integer_pow.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/unsigned_integer_pow.hxx b/include/opengm/utilities/unsigned_integer_pow.hxx
index b6761f0..76a25ac 100644
--- a/include/opengm/utilities/unsigned_integer_pow.hxx
+++ b/include/opengm/utilities/unsigned_integer_pow.hxx
@@ -3,7 +3,7 @@
 
 namespace opengm {
 
-size_t unsignedIntegerPow(size_t base, size_t exponent) {
+inline size_t unsignedIntegerPow(size_t base, size_t exponent) {
    if(base == 1) {
       return 1;
    } else if((base == 0) && (exponent > 0)) {
-- 
2.43.0


From 0005d5483c20bf501d6ab5f09675479bfbad1004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:19 +0000
Subject: [PATCH 032/224] fix: soft constraint functions with distinct index
 and label types can be deserialised

---
 .../soft_constraint_functions/label_cost_function.hxx  | 10 ++++++----
 .../sum_constraint_function.hxx                        |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/opengm/functions/soft_constraint_functions/label_cost_function.hxx b/include/opengm/functions/soft_constraint_functions/label_cost_function.hxx
index f811bee..f4c18fa 100644
--- a/include/opengm/functions/soft_constraint_functions/label_cost_function.hxx
+++ b/include/opengm/functions/soft_constraint_functions/label_cost_function.hxx
@@ -466,6 +466,8 @@ inline void FunctionSerialization<LabelCostFunction<VALUE_TYPE, INDEX_TYPE, LABE
    ++indexInIterator;
 
    // shape
+   typedef INDEX_TYPE IndexType;
+   typedef LABEL_TYPE LabelType;
    INDEX_INPUT_ITERATOR shapeBegin = indexInIterator;
    INDEX_INPUT_ITERATOR shapeEnd = indexInIterator + (useSameNumLabels ? 1 : dimension);
    indexInIterator += (useSameNumLabels ? 1 : dimension);
@@ -478,17 +480,17 @@ inline void FunctionSerialization<LabelCostFunction<VALUE_TYPE, INDEX_TYPE, LABE
    // value input
    // coefficients
    VALUE_INPUT_ITERATOR costsBegin = valueInIterator;
-   VALUE_INPUT_ITERATOR costsEnd = valueInIterator + costsSize;
+   VALUE_INPUT_ITERATOR costsEnd = valueInIterator + (useSingleCost ? 1 : costsSize);
 
    if(useSameNumLabels) {
       if(useSingleCost) {
-         dst = LabelCostFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>(dimension, *shapeBegin, costsSize, *costsBegin);
+         dst = LabelCostFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>(static_cast<IndexType>(dimension), static_cast<LabelType>(*shapeBegin), static_cast<LabelType>(costsSize), *costsBegin);
       } else {
-         dst = LabelCostFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>(dimension, *shapeBegin, costsBegin, costsEnd);
+         dst = LabelCostFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>(static_cast<IndexType>(dimension), static_cast<LabelType>(*shapeBegin), costsBegin, costsEnd);
       }
    } else {
       if(useSingleCost) {
-         dst = LabelCostFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>(shapeBegin, shapeEnd, costsSize, *costsBegin);
+         dst = LabelCostFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>(shapeBegin, shapeEnd, static_cast<LabelType>(costsSize), *costsBegin);
       } else {
          dst = LabelCostFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>(shapeBegin, shapeEnd, costsBegin, costsEnd);
       }
diff --git a/include/opengm/functions/soft_constraint_functions/sum_constraint_function.hxx b/include/opengm/functions/soft_constraint_functions/sum_constraint_function.hxx
index 7459633..658c2bc 100644
--- a/include/opengm/functions/soft_constraint_functions/sum_constraint_function.hxx
+++ b/include/opengm/functions/soft_constraint_functions/sum_constraint_function.hxx
@@ -494,7 +494,7 @@ inline void FunctionSerialization<SumConstraintFunction<VALUE_TYPE, INDEX_TYPE,
    const ValueType bound = *valueInIterator;
 
    if(useSameNumLabels) {
-      dst = SumConstraintFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>(numVariables, *shapeBegin, coefficientsBegin, coefficientsEnd, shareCoefficients, lambda, bound);
+      dst = SumConstraintFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>(numVariables, static_cast<LABEL_TYPE>(*shapeBegin), coefficientsBegin, coefficientsEnd, shareCoefficients, lambda, bound);
    } else {
       dst = SumConstraintFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>(shapeBegin, shapeEnd, coefficientsBegin, coefficientsEnd, shareCoefficients, lambda, bound);
    }
-- 
2.43.0


From 82deb668772d682823351c7c2e734882f25afb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:19 +0000
Subject: [PATCH 033/224] fix: loading a model from HDF5 replaces the content
 it had before

---
 include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index 8baaf4e..1bb042a 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -457,6 +457,8 @@ void load
       if(serializationIndicies[0] != 2 || serializationIndicies[1] != 0) {
          throw RuntimeError("This version of the HDF5 file format is not supported by this version of OpenGM.");
       }
+      // the loaded model replaces the previous content
+      gm = GM();
       //numberOfVariables=serializationIndicies[2];
       //gm.numbersOfStates_.resize(serializationIndicies[2]);
       gm.factors_.resize(serializationIndicies[3], FactorType(&gm));
@@ -513,8 +515,6 @@ void load
    SaveAndLoadFunctions<GM, 0, GM::NrOfFunctionTypes, opengm::meta::EqualNumber<GM::NrOfFunctionTypes, 0>::value >::load
    (group, gm, numberOfFunctions,functionIndexLookup,useFunction,loadValueTypeAs,oldFormat);
 
-   gm.factorsVis_.clear();
-
    if(gm.factors_.size() != 0) {
 
       std::string subDatasetName("factors");
-- 
2.43.0


From 6e2a0ae953fa940ffb7bbffcdc95eb817746fc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:19 +0000
Subject: [PATCH 034/224] fix: unused function types of an HDF5 file do not
 shadow the first listed type

---
 include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index 1bb042a..a5f09b4 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -463,7 +463,8 @@ void load
       //gm.numbersOfStates_.resize(serializationIndicies[2]);
       gm.factors_.resize(serializationIndicies[3], FactorType(&gm));
       numberOfFunctions.resize(serializationIndicies[4]);
-      functionIndexLookup.resize(serializationIndicies[4]);
+      // function types that are not in the type list of the gm are not mapped
+      functionIndexLookup.resize(serializationIndicies[4], static_cast<opengm::UInt64Type>(GM::NrOfFunctionTypes));
       typeRegisterId.resize(serializationIndicies[4]);
       for(size_t i=0; i<numberOfFunctions.size(); ++i) {
          //const size_t fRegId=GetFunctionRegistration<GM, 0, GM::NrOfFunctionTypes, meta::EqualNumber<GM::NrOfFunctionTypes, 0>::value>::get(i);
-- 
2.43.0


From e6388af3e476d20e73635508f75099996cfd5aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:19 +0000
Subject: [PATCH 035/224] fix: models without variables can be saved to and
 loaded from HDF5

---
 .../graphicalmodel/graphicalmodel_hdf5.hxx     | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index a5f09b4..77324b3 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -401,7 +401,7 @@ void save
          serializationIndicies[i]=
             static_cast<opengm::UInt64Type>(gm.numberOfLabels(i));
       }
-      marray::hdf5::save(group, subDatasetName, serializationIndicies);
+      if(serializationIndicies.size() != 0)marray::hdf5::save(group, subDatasetName, serializationIndicies);
    }
    serializationIndicies.clear();
 
@@ -443,7 +443,7 @@ void load
    std::vector<opengm::UInt64Type> functionIndexLookup;
    std::vector<bool> useFunction(GM::NrOfFunctionTypes,false);
    marray::Vector<opengm::UInt64Type> typeRegisterId;
-   //size_t numberOfVariables;
+   size_t numberOfVariables;
    bool oldFormat=false;
    opengm::UInt64Type loadValueTypeAs=0;
    {
@@ -459,7 +459,7 @@ void load
       }
       // the loaded model replaces the previous content
       gm = GM();
-      //numberOfVariables=serializationIndicies[2];
+      numberOfVariables=serializationIndicies[2];
       //gm.numbersOfStates_.resize(serializationIndicies[2]);
       gm.factors_.resize(serializationIndicies[3], FactorType(&gm));
       numberOfFunctions.resize(serializationIndicies[4]);
@@ -507,12 +507,12 @@ void load
          }
       }
    }
-   //if(numberOfVariables != 0) {
-   std::string subDatasetName("numbers-of-states");
-   marray::hdf5::load(group, subDatasetName, serializationIndicies);
-   gm.space_.assignDense(serializationIndicies.begin(), serializationIndicies.end());
-   OPENGM_ASSERT(serializationIndicies.size() == gm.numberOfVariables());
-   //}
+   if(numberOfVariables != 0) {
+      std::string subDatasetName("numbers-of-states");
+      marray::hdf5::load(group, subDatasetName, serializationIndicies);
+      gm.space_.assignDense(serializationIndicies.begin(), serializationIndicies.end());
+      OPENGM_ASSERT(serializationIndicies.size() == gm.numberOfVariables());
+   }
    SaveAndLoadFunctions<GM, 0, GM::NrOfFunctionTypes, opengm::meta::EqualNumber<GM::NrOfFunctionTypes, 0>::value >::load
    (group, gm, numberOfFunctions,functionIndexLookup,useFunction,loadValueTypeAs,oldFormat);
 
-- 
2.43.0


From ca857f974af280e7b7244cff9edfe42442de5439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 036/224] fix: HDF5 files and groups are closed when loading or
 saving fails

---
 .../datastructures/marray/marray_hdf5.hxx     |  2 ++
 .../graphicalmodel/graphicalmodel_hdf5.hxx    | 27 ++++++++++++++-----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/opengm/datastructures/marray/marray_hdf5.hxx b/include/opengm/datastructures/marray/marray_hdf5.hxx
index fb8ab88..94bcf11 100644
--- a/include/opengm/datastructures/marray/marray_hdf5.hxx
+++ b/include/opengm/datastructures/marray/marray_hdf5.hxx
@@ -654,6 +654,8 @@ void loadHyperslab(
     hid_t datatype = H5Dget_type(dataset);
     
     if(!H5Tequal(datatype, hdf5Type<T>())) {
+        H5Tclose(datatype);
+        H5Dclose(dataset);
         throw std::runtime_error("data type of stored hdf5 dataset and passed array do not match in loadHyperslab");
     }
     
diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index 77324b3..1a5cb17 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -28,6 +28,21 @@ namespace opengm {
 namespace hdf5 {
 
 /// \cond HIDDEN_SYMBOLS
+// closes a file or group at the end of a scope, also if an exception is thrown
+class ScopedHandle {
+public:
+   typedef void (*CloseFunction)(const hid_t&);
+   ScopedHandle(const hid_t handle, CloseFunction close)
+   :  handle_(handle), close_(close) {}
+   ~ScopedHandle() { close_(handle_); }
+private:
+   ScopedHandle(const ScopedHandle&);
+   ScopedHandle& operator=(const ScopedHandle&);
+
+   hid_t handle_;
+   CloseFunction close_;
+};
+
 template<class T>
 struct IsValidTypeForHdf5Save {
    typedef  opengm::meta::Bool<
@@ -101,6 +116,7 @@ struct SaveAndLoadFunctions<GM, IX, DX, false>
          typedef typename meta::TypeAtTypeList<typename GM::FunctionTypeList, IX>::type TypeAtIX;
          ss << "function-id-" << (FunctionRegistration<TypeAtIX>::Id);
          hid_t group = marray::hdf5::createGroup(handle, ss.str());
+         const ScopedHandle scopedGroup(group, &marray::hdf5::closeGroup);
 
          // loop over all functions of this type
          size_t indexCounter = 0;
@@ -166,7 +182,6 @@ struct SaveAndLoadFunctions<GM, IX, DX, false>
                marray::hdf5::save(group, std::string("values"), tmpValueVector);
             }
          }
-         marray::hdf5::closeGroup(group);
       }
 
       // save functions of the next type in the typelist
@@ -205,6 +220,7 @@ struct SaveAndLoadFunctions<GM, IX, DX, false>
             typedef typename meta::TypeAtTypeList<typename GM::FunctionTypeList, IX>::type TypeAtIX ;
             ss << "function-id-" << (FunctionRegistration<TypeAtIX>::Id);
             hid_t group = marray::hdf5::openGroup(handle, ss.str());
+            const ScopedHandle scopedGroup(group, &marray::hdf5::closeGroup);
             marray::Vector<typename GM::ValueType> serializationValues;
             marray::Vector<opengm::UInt64Type> serializationIndicies;
             {
@@ -279,7 +295,6 @@ struct SaveAndLoadFunctions<GM, IX, DX, false>
                valueIter+=FunctionSerialization<TypeAtIX>::valueSequenceSize(
                   meta::FieldAccess::template byIndex<IX> (gm.functionDataField_).functionData_.functions_[i]);
             }
-            marray::hdf5::closeGroup(group);
          }
       }
 
@@ -339,7 +354,9 @@ void save
       throw opengm::RuntimeError( std::string("ValueType  has no support for hdf5 export") );
    }
    hid_t file = marray::hdf5::createFile(filepath, marray::hdf5::DEFAULT_HDF5_VERSION);
+   const ScopedHandle scopedFile(file, &marray::hdf5::closeFile);
    hid_t group = marray::hdf5::createGroup(file, datasetName);
+   const ScopedHandle scopedGroup(group, &marray::hdf5::closeGroup);
    std::vector<UInt64Type> serializationIndicies;
    opengm::UInt64Type storeValueTypeAs;
    // float
@@ -422,8 +439,6 @@ void save
       }
       if(serializationIndicies.size() != 0)marray::hdf5::save(group, subDatasetName, serializationIndicies);
    }
-   marray::hdf5::closeGroup(group);
-   marray::hdf5::closeFile(file);
 }
 
 template<class GM>
@@ -437,7 +452,9 @@ void load
    typedef typename GM::ValueType ValueType;
    typedef typename GM::FactorType FactorType;
    hid_t file = marray::hdf5::openFile(filepath, marray::hdf5::READ_ONLY, marray::hdf5::DEFAULT_HDF5_VERSION);
+   const ScopedHandle scopedFile(file, &marray::hdf5::closeFile);
    hid_t group =marray::hdf5::openGroup(file, datasetName);
+   const ScopedHandle scopedGroup(group, &marray::hdf5::closeGroup);
    marray::Vector<opengm::UInt64Type> serializationIndicies;
    std::vector<opengm::UInt64Type> numberOfFunctions;
    std::vector<opengm::UInt64Type> functionIndexLookup;
@@ -551,8 +568,6 @@ void load
       }
    }
 
-   marray::hdf5::closeGroup(group);
-   marray::hdf5::closeFile(file);
    gm.variableFactorAdjaceny_.resize(gm.numberOfVariables());
    // adjacenies
 
-- 
2.43.0


From 6696163ec0bc498bd01c532b1c7b07e1034464f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 037/224] fix: weighted sums of functions serialise features in
 a fixed coordinate order

---
 .../functions/learnable/lweightedsum_of_functions.hxx      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/opengm/functions/learnable/lweightedsum_of_functions.hxx b/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
index 9debad5..960bed1 100644
--- a/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
+++ b/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
@@ -213,10 +213,11 @@ FunctionSerialization<opengm::functions::learnable::LWeightedSumOfFunctions<T, I
 
    OPENGM_ASSERT_OP(src.weightIDs_.size(), ==, src.feat_.size());
 
-   // save features  
+   // save features, independent of the coordinate order of their arrays
    for(size_t i=0; i<src.weightIDs_.size();++i){
-      for(size_t j=0; j<src.feat_[i].size();++j){
-         *valueOutIterator = src.feat_[i](j);
+      ShapeWalker<typename std::vector<L>::const_iterator> walker(src.shape_.begin(), src.shape_.size());
+      for(size_t j=0; j<src.feat_[i].size();++j, ++walker){
+         *valueOutIterator = src.feat_[i](walker.coordinateTuple().begin());
          ++valueOutIterator;
       }
    }
-- 
2.43.0


From a1513398a5372291d12f567f38289d3c05282e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:05 +0000
Subject: [PATCH 038/224] fix: operations on factors without variables gave
 their result an extent of zero

---
 include/opengm/datastructures/marray/marray.hxx  | 2 +-
 include/opengm/functions/operations/operator.hxx | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index 0c7764c..9833d52 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -3894,7 +3894,7 @@ Marray<T, A>::resize
        *this=Marray<T,A>((*this).operator()(0));
        }
        else{
-          *this=Marray<T,A>(T());
+          *this=Marray<T,A>(value);
        }
 
     }
diff --git a/include/opengm/functions/operations/operator.hxx b/include/opengm/functions/operations/operator.hxx
index 56cda43..60e0107 100644
--- a/include/opengm/functions/operations/operator.hxx
+++ b/include/opengm/functions/operations/operator.hxx
@@ -182,7 +182,6 @@ void BinaryOperationImpl<A, B, C, OP>::op
    }
    else if(dimA == 0 && dimB == 0) {
       const size_t scalarIndex=0;
-      c.resize(&scalarIndex, &scalarIndex+1);
       c(&scalarIndex) = op(a(&scalarIndex), b(&scalarIndex));
    }
    else if(dimA == 0) {
@@ -252,7 +251,6 @@ void BinaryOperationInplaceImpl<A, B, OP>::op
       }
       else {
          const size_t scalarIndex=0;
-         a.resize(&scalarIndex, &scalarIndex+1);
          a(&scalarIndex) = op(a(&scalarIndex), b(&scalarIndex));
          via.assign(viaNew.begin(),viaNew.end());
       }
@@ -299,7 +297,7 @@ void UnaryOperationImpl<A, B, OP>::op
    }
    else {
       const size_t scalarIndex=0;
-      b.resize(&scalarIndex, &scalarIndex+1);
+      b.resize(&scalarIndex, &scalarIndex);
       b(&scalarIndex) = op(a(&scalarIndex));
    }
 }
-- 
2.43.0


From 6a88c21b6a6e4573e2516611d605ae651343142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:05 +0000
Subject: [PATCH 039/224] fix: combining a factor with a scalar of another type
 truncated the result, in-place did not compile

---
 .../graphicalmodel_factor_operator.hxx               | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_factor_operator.hxx b/include/opengm/graphicalmodel/graphicalmodel_factor_operator.hxx
index 33ffd53..c91f22f 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_factor_operator.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_factor_operator.hxx
@@ -376,8 +376,8 @@ namespace functionwrapper {
             C& c,
             OP op
          ) {
-            typedef typename opengm::BinaryToUnaryFunctor<B, OP, false> BTUFunctor;
-            BTUFunctor btufunctor(b, op);
+            typedef typename opengm::BinaryToUnaryFunctor<typename A::ValueType, OP, false> BTUFunctor;
+            BTUFunctor btufunctor(static_cast<typename A::ValueType>(b), op);
             opengm::functionwrapper::unary::OperationWrapperSelector<A, C, BTUFunctor>::op(a, c, btufunctor);
          }
       };
@@ -392,7 +392,7 @@ namespace functionwrapper {
             const B& b,
             C& c, OP op
          ) {
-            typedef opengm::SwapArgumemtFunctor<A, OP> SwapFunctorType;
+            typedef opengm::SwapArgumemtFunctor<typename B::ValueType, OP> SwapFunctorType;
             OperationWrapper<B, A, C, SwapFunctorType, IndependentFactorOrFactorFlag, ScalarFlag, IndependentFactorFlag >::op(b, a, c, SwapFunctorType(op));
          }
       };
@@ -521,9 +521,9 @@ namespace functionwrapper {
             const B& b,
             OP op
          ) {
-            typedef typename opengm::BinaryToUnaryFunctor<B, OP, false> BTUFunctor;
-            BTUFunctor btufunctor(b, op);
-            opengm::UnaryOperationInplaceImpl<A, BTUFunctor>::op(a, btufunctor);
+            typedef typename opengm::BinaryToUnaryFunctor<typename A::ValueType, OP, false> BTUFunctor;
+            BTUFunctor btufunctor(static_cast<typename A::ValueType>(b), op);
+            unary::InplaceOperationWrapperSelector<A, BTUFunctor>::op(a, btufunctor);
          }
       };
 
-- 
2.43.0


From bc76ff2d85fe39dcfee9f1bb7a116b9805a97d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:05 +0000
Subject: [PATCH 040/224] fix: subtractOffset of independent factors did not
 compile for label types other than size_t

---
 include/opengm/graphicalmodel/graphicalmodel_factor.hxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
index 1bf81b7..3eb1257 100755
--- a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
@@ -1328,8 +1328,7 @@ IndependentFactor<T, I, L> ::subtractOffset() {
    }
    else {
       T v;
-      std::vector<size_t> states;
-      opengm::accumulate<Minimizer>(*this, v, states);
+      opengm::accumulate<Minimizer>(*this, v);
       (*this) -= v;
    }
 }
-- 
2.43.0


From f6e96d67b69b64088499da6bff956f384c82be13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:57 +0000
Subject: [PATCH 041/224] fix: accumulating over variables of a factor without
 variables returned zero instead of its value

---
 include/opengm/functions/operations/accumulator.hxx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/opengm/functions/operations/accumulator.hxx b/include/opengm/functions/operations/accumulator.hxx
index 2e12443..3bcb31b 100644
--- a/include/opengm/functions/operations/accumulator.hxx
+++ b/include/opengm/functions/operations/accumulator.hxx
@@ -198,8 +198,7 @@ void AccumulateSomeImpl<A, B, ACC>::op
    else {
       Accumulation<ValueType, LabelType, ACC> acc;
       size_t indexSequenceToScalar[] = {0};
-      ValueType accRes=static_cast<ValueType>(0.0);
-      acc(accRes);
+      acc(a(indexSequenceToScalar));
       size_t shapeToScalarArray[] = {0};
       b.resize(shapeToScalarArray, shapeToScalarArray);
       b(indexSequenceToScalar) = acc.value();
@@ -290,10 +289,9 @@ void AccumulateSomeInplaceImpl<A, ACC>::op
    }
    else {
       Accumulation<ValueType, LabelType, ACC> acc;
-      ValueType accRes=static_cast<ValueType>(0.0);
-      acc(accRes);
-      a.assign();
-      a(0) = acc.value();
+      size_t indexSequenceToScalar[] = {0};
+      acc(a(indexSequenceToScalar));
+      a(indexSequenceToScalar) = acc.value();
    }
    OPENGM_ASSERT(a.dimension() == viA.size());
    OPENGM_ASSERT(a.dimension() != 0 || (a.dimension() == 0 && a.size() == 1));
-- 
2.43.0


From 86a9dcc793b9ea7e3ac1c1b1a470f625dc2c6610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:57 +0000
Subject: [PATCH 042/224] fix: optimal labels were missing when all values
 equal the neutral element

---
 include/opengm/utilities/accumulation.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/opengm/utilities/accumulation.hxx b/include/opengm/utilities/accumulation.hxx
index 61039aa..e054482 100644
--- a/include/opengm/utilities/accumulation.hxx
+++ b/include/opengm/utilities/accumulation.hxx
@@ -58,7 +58,7 @@ template<class Value, class State, class Accumulator>
 inline typename Accumulation<Value, State, Accumulator>::ValueType
 Accumulation<Value, State, Accumulator>::neutral() const
 {
-   return state_.size();
+   return Accumulator::template neutral<Value>();
 }
    
 template<class Value, class State, class Accumulator>
@@ -110,7 +110,7 @@ Accumulation<Value, State, Accumulator>::operator()
    const ValueType& value,
    const opengm::FastSequence<size_t>& state
 ) {
-   if(Accumulator::bop(value, value_)) {
+   if(Accumulator::bop(value, value_) || (Accumulator::hasbop() && state_.size() == 0)) {
       state_ = state;
       OPENGM_ASSERT(state_.size()==state.size());
    }
@@ -127,14 +127,14 @@ Accumulation<Value, State, Accumulator>::operator()
    const CONTAINER & state
 )
 {
-   if(Accumulator::bop(value, value_)) {
+   if(Accumulator::bop(value, value_) || (Accumulator::hasbop() && state_.size() == 0)) {
       state_.resize(state.size());
       for(size_t i=0;i<state.size();++i) {
          state_[i] = state[i];
       }
    }
    Accumulator::op(value, value_, value_);
-   OPENGM_ASSERT(state_.size()==state.size());
+   OPENGM_ASSERT(!Accumulator::hasbop() || state_.size()==state.size());
 }
    
 template<class Value, class State, class Accumulator>
-- 
2.43.0


From 099acd94aa1f667f3f032d2fd0ddd3457423303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:57 +0000
Subject: [PATCH 043/224] fix: the neutral elements of minimum and maximum were
 zero for integer types

---
 include/opengm/operations/maximizer.hxx | 10 ++++++----
 include/opengm/operations/minimizer.hxx |  8 ++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/opengm/operations/maximizer.hxx b/include/opengm/operations/maximizer.hxx
index 7eb545d..d7fb4a7 100644
--- a/include/opengm/operations/maximizer.hxx
+++ b/include/opengm/operations/maximizer.hxx
@@ -2,6 +2,8 @@
 #ifndef OPENGM_OPERATIONS_MAXIMIZER_HXX
 #define OPENGM_OPERATIONS_MAXIMIZER_HXX
 
+#include <limits>
+
 namespace opengm {
 
 /// Maximization as a unary accumulation
@@ -12,22 +14,22 @@ struct Maximizer
    /// neutral element (with return)
    template<class T>
    static T neutral()
-      { return -std::numeric_limits<T>::infinity(); }
+      { return std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::min(); }
 
    /// neutral element (call by reference)
    template<class T>
    static void neutral(T& out)
-      { out = -std::numeric_limits<T>::infinity(); }
+      { out = std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::min(); }
 
    /// inverse neutral element (with return)
    template<class T>
    static T ineutral()
-      { return std::numeric_limits<T>::infinity(); }
+      { return std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max(); }
 
    /// inverse neutral element (call by reference)
    template<class T>
    static void ineutral(T& out)
-      { out = std::numeric_limits<T>::infinity(); }
+      { out = std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max(); }
 
    /// operation (in-place)
    template<class T1, class T2>
diff --git a/include/opengm/operations/minimizer.hxx b/include/opengm/operations/minimizer.hxx
index d8bd555..83e0c2b 100644
--- a/include/opengm/operations/minimizer.hxx
+++ b/include/opengm/operations/minimizer.hxx
@@ -14,20 +14,20 @@ struct Minimizer
    /// neutral element (with return)
    template<class T>
    static T neutral()
-      { return std::numeric_limits<T>::infinity(); }
+      { return std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max(); }
    /// neutral element (call by reference)
    template<class T>
    static void neutral(T& out)
-      { out = std::numeric_limits<T>::infinity(); }
+      { out = std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max(); }
 
    /// inverse neutral element (with return)
    template<class T>
    static T ineutral()
-      { return -std::numeric_limits<T>::infinity(); }
+      { return std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::min(); }
    /// inverse neutral element (call by reference)
    template<class T>
    static void ineutral(T& out)
-      { out = -std::numeric_limits<T>::infinity(); }
+      { out = std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::min(); }
       
    /// operation (in-place)
    template<class T1, class T2>
-- 
2.43.0


From ea5d3b0b62f579d9d6fbdebaf39de3c55535a59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:57 +0000
Subject: [PATCH 044/224] fix: logsumexp of three operands read its output, two
 negative infinities gave NaN, the integrator's inverse had no effect

---
 include/opengm/operations/integrator.hxx |  2 +-
 include/opengm/operations/logsumexp.hxx  | 15 +++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/opengm/operations/integrator.hxx b/include/opengm/operations/integrator.hxx
index aa2305f..1b7be65 100644
--- a/include/opengm/operations/integrator.hxx
+++ b/include/opengm/operations/integrator.hxx
@@ -44,7 +44,7 @@ struct Integrator
    /// inverse operation (in-place)
    template<class T1, class T2>
       static void iop(const T1& in1,  T2& out)
-         { out - in1; }
+         { out -= in1; }
 
    /// inverse operation (call by reference)
    template<class T1,class T2,class T3>
diff --git a/include/opengm/operations/logsumexp.hxx b/include/opengm/operations/logsumexp.hxx
index 87f4d70..c454886 100644
--- a/include/opengm/operations/logsumexp.hxx
+++ b/include/opengm/operations/logsumexp.hxx
@@ -37,9 +37,12 @@ struct Logsumexp
       static void op(const T1& in1, T2& out)
 //         { out = log(exp(out) + exp(in1)); }
    {
-      T2 theMax = std::max(in1, out);
-      T2 theMin = std::min(in1, out);
-      out = theMax + log(1 + exp(theMin - theMax));  // numerically better
+      const T2 theMax = in1 > out ? in1 : out;
+      const T2 theMin = in1 > out ? out : in1;
+      if(theMin == theMax) // also equal infinities
+         out = theMax + log(static_cast<T2>(2));
+      else
+         out = theMax + log(1 + exp(theMin - theMax));  // numerically better
    }
 
    /// operation (not in-place)
@@ -47,9 +50,9 @@ struct Logsumexp
       static void op(const T1 in1, const T2 in2, T3& out)
 //         { out = log(exp(in1) + exp(in2)); }
    {
-      T2 theMax = std::max(in1, out);
-      T2 theMin = std::min(in1, out);
-      out = theMax + log(1 + exp(theMin - theMax));  // numerically better
+      T3 result = in2;
+      op(in1, result);
+      out = result;
    }
 
    /// inverse operation (in-place)
-- 
2.43.0


From e99706ae2655556e843c0af81908afc3c0ed5de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:58 +0000
Subject: [PATCH 045/224] fix: tentacle elimination indexed a per-factor vector
 by variable

---
 include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
index 95b0b7c..9dcad43 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
@@ -527,7 +527,7 @@ namespace opengm {
       }
       
       //SETUP LEAFS 
-      std::vector<bool>  pushed2Leafs(gm_.numberOfFactors(), false);
+      std::vector<bool>  pushed2Leafs(gm_.numberOfVariables(), false);
       for(IndexType var=0; var<gm_.numberOfVariables(); ++var){
          if(variableDegree[var] <= 1 && !fixVariable_[var]){
             leafs.push_back(var);
-- 
2.43.0


From 388ccb8fd86a8b7bd991362f7c09f69505c7d5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:58 +0000
Subject: [PATCH 046/224] fix: building a modified model without locking first
 read an empty vector

---
 include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
index 9dcad43..afd4be1 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
@@ -138,7 +138,8 @@ namespace opengm {
         mode_(mode),
         validModel_(false), 
         validSubModels_(false),
-        var2subProblem_(std::vector<IndexType>(gm.numberOfVariables(),0))
+        var2subProblem_(std::vector<IndexType>(gm.numberOfVariables(),0)),
+        tentacleFactor_(std::vector<bool>(gm.numberOfFactors(),false))
    {
       return;
    }
-- 
2.43.0


From dc37e159fc12a961292753356483b68d91023fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:58 +0000
Subject: [PATCH 047/224] fix: unlocking a manipulator kept the tentacles of
 the previous elimination

---
 include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
index afd4be1..4b079a4 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
@@ -187,6 +187,11 @@ namespace opengm {
       validSubModels_=false;
       validModel_=false;
       submodels_.clear();
+      tentacleRoots_.clear();
+      tentacleFunctions_.clear();
+      tentacleLabelCandidates_.clear();
+      tentacleVars_.clear();
+      tentacleFactor_.assign(gm_.numberOfFactors(),false);
       freeAllVariables();
    }
 
-- 
2.43.0


From 8a7c364244e637b87f806a41c5aecfeea9f3555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:33 +0000
Subject: [PATCH 048/224] fix: ordering constant and mutable array iterators
 did not compile

---
 include/opengm/datastructures/marray/marray.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index 9833d52..a6f87c8 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -4534,7 +4534,7 @@ Iterator<T, isConst, A>::operator<
 ) const
 {
     marray_detail::Assert(MARRAY_NO_DEBUG || view_ != 0);
-    marray_detail::Assert(MARRAY_NO_ARG_TEST || (it.view_ != 0 && it.view_ == view_));
+    marray_detail::Assert(MARRAY_NO_ARG_TEST || (it.view_ != 0 && (void*)it.view_ == (void*)view_));
     return(index_ < it.index_);
 }
 
@@ -4547,7 +4547,7 @@ Iterator<T, isConst, A>::operator>
 ) const
 {
     marray_detail::Assert(MARRAY_NO_DEBUG || view_ != 0);
-    marray_detail::Assert(MARRAY_NO_ARG_TEST || (it.view_ != 0 && it.view_ == view_));
+    marray_detail::Assert(MARRAY_NO_ARG_TEST || (it.view_ != 0 && (void*)it.view_ == (void*)view_));
     return(index_ > it.index_);
 }
 
@@ -4560,7 +4560,7 @@ Iterator<T, isConst, A>::operator<=
 ) const
 {
     marray_detail::Assert(MARRAY_NO_DEBUG || view_ != 0);
-    marray_detail::Assert(MARRAY_NO_ARG_TEST || (it.view_ != 0 && it.view_ == view_));
+    marray_detail::Assert(MARRAY_NO_ARG_TEST || (it.view_ != 0 && (void*)it.view_ == (void*)view_));
     return(index_ <= it.index_);
 }
 
@@ -4573,7 +4573,7 @@ Iterator<T, isConst, A>::operator>=
 ) const
 {
     marray_detail::Assert(MARRAY_NO_DEBUG || view_ != 0);
-    marray_detail::Assert(MARRAY_NO_ARG_TEST || (it.view_ != 0 && it.view_ == view_));
+    marray_detail::Assert(MARRAY_NO_ARG_TEST || (it.view_ != 0 && (void*)it.view_ == (void*)view_));
     return(index_ >= it.index_);
 }
 
-- 
2.43.0


From d00d930afd25c2b7892b8f8c30030472efa60b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:33 +0000
Subject: [PATCH 049/224] fix: decrementing the end iterator of a strided view
 left its pointer wrong

---
 include/opengm/datastructures/marray/marray.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index a6f87c8..ded0c38 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -4384,7 +4384,7 @@ Iterator<T, isConst, A>::operator--()
         --pointer_;
     }
     else {
-        if(index_ == view_->size()) {
+        if(index_ + 1 == view_->size()) {
             // decrement from end iterator
             --pointer_;
             if(view_->coordinateOrder() == LastMajorOrder) {
-- 
2.43.0


From c090d23f36dad39ce28525475f477c47576b139c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:33 +0000
Subject: [PATCH 050/224] fix: moving an array iterator backwards by a negative
 increment ignored the end position

---
 include/opengm/datastructures/marray/marray.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index ded0c38..ec61cc6 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -4254,6 +4254,9 @@ Iterator<T, isConst, A>::operator+=
 )
 {
     marray_detail::Assert(MARRAY_NO_DEBUG || view_ != 0);
+    if(x < 0) {
+        return *this -= -x;
+    }
     if(index_ < view_->size()) { // view initialized and iterator not at the end
         if(index_ + x < view_->size()) {
             index_ += x;
@@ -4295,6 +4298,9 @@ Iterator<T, isConst, A>::operator-=
 )
 {
     marray_detail::Assert(MARRAY_NO_DEBUG || view_ != 0);
+    if(x <= 0) {
+        return *this += -x;
+    }
     marray_detail::Assert(MARRAY_NO_ARG_TEST || static_cast<difference_type>(index_) >= x);
     index_ -= x;
     if(view_->isSimple()) {
-- 
2.43.0


From 95935d7be551245bf39abd2b50878cc72e23c480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:08 +0000
Subject: [PATCH 051/224] fix: squeezing a strided view to a scalar left it
 inconsistent

---
 include/opengm/datastructures/marray/marray.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index ec61cc6..ab7a95f 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -2425,6 +2425,7 @@ View<T, isConst, A>::squeeze()
             if(newDimension == 0) {
                 geometry_.resize(0);
                 geometry_.size() = 1;
+                updateSimplicity();
             }
             else {
                 for(size_t j=0, k=0; j<geometry_.dimension(); ++j) {
-- 
2.43.0


From 099944fe66fc437687838a0319b1af5cb4336d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:16 +0000
Subject: [PATCH 052/224] fix: combining a strided view with a scalar of
 another type truncated to the type of the view

---
 include/opengm/datastructures/marray/marray.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index ab7a95f..b41117f 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -5606,7 +5606,7 @@ public:
             { iterator_.incrementCoordinate(coordinateIndex); }
         void resetCoordinate(const size_t coordinateIndex)
             { iterator_.resetCoordinate(coordinateIndex); }
-        const T operator*() const
+        const value_type operator*() const
             { return binaryFunctor_(scalar_, *iterator_); }
     private:
         BinaryFunctor binaryFunctor_;
@@ -5680,7 +5680,7 @@ public:
             { iterator_.incrementCoordinate(coordinateIndex); }
         void resetCoordinate(const size_t coordinateIndex)
             { iterator_.resetCoordinate(coordinateIndex); }
-        const T operator*() const
+        const value_type operator*() const
             { return binaryFunctor_(*iterator_, scalar_); }
     private:
         BinaryFunctor binaryFunctor_;
-- 
2.43.0


From 8e5e7bd6988953a995b003d68a04574af5641c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:27 +0000
Subject: [PATCH 053/224] fix: copying between views of more than ten
 dimensions mixed up coordinate orders

---
 .../opengm/datastructures/marray/marray.hxx   | 30 ++++++++++---------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index b41117f..d0593a4 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -6368,11 +6368,13 @@ struct AssignmentOperatorHelper<false, TFrom, TTo, AFrom, ATo>
             OperateHelperBinary<9, Assign<TTo, TFrom>, TTo, TFrom, true, ATo, AFrom>::operate(to, from, Assign<TTo, TFrom>(), &to(0), &from(0));
         else if(from.dimension() == 10)
             OperateHelperBinary<10, Assign<TTo, TFrom>, TTo, TFrom, true, ATo, AFrom>::operate(to, from, Assign<TTo, TFrom>(), &to(0), &from(0));
+        else if(from.dimension() == 0)
+            to(0) = static_cast<TTo>(from(0));
         else {
-            FromIterator itFrom = from.begin();
-            ToIterator itTo = to.begin();
-            for(; itFrom.hasMore(); ++itFrom, ++itTo) {
-                *itTo = static_cast<TTo>(*itFrom);
+            std::vector<size_t> coordinate(to.dimension());
+            for(ToIterator itTo = to.begin(); itTo.hasMore(); ++itTo) {
+                itTo.coordinate(coordinate.begin());
+                *itTo = static_cast<TTo>(from(coordinate.begin()));
             }
         }
     }
@@ -6432,11 +6434,13 @@ struct AssignmentOperatorHelper<false, TFrom, TTo, AFrom, ATo>
                     OperateHelperBinary<9, Assign<TTo, TFrom>, TTo, TFrom, true, ATo, AFrom>::operate(to, from, Assign<TTo, TFrom>(), &to(0), &from(0));
                 else if(from.dimension() == 10)
                     OperateHelperBinary<10, Assign<TTo, TFrom>, TTo, TFrom, true, ATo, AFrom>::operate(to, from, Assign<TTo, TFrom>(), &to(0), &from(0));
+                else if(from.dimension() == 0)
+                    to(0) = static_cast<TTo>(from(0));
                 else {
-                    FromIterator itFrom = from.begin();
-                    ToIterator itTo = to.begin();
-                    for(; itFrom.hasMore(); ++itFrom, ++itTo) {
-                        *itTo = static_cast<TTo>(*itFrom);
+                    std::vector<size_t> coordinate(to.dimension());
+                    for(ToIterator itTo = to.begin(); itTo.hasMore(); ++itTo) {
+                        itTo.coordinate(coordinate.begin());
+                        *itTo = static_cast<TTo>(from(coordinate.begin()));
                     }
                 }
             }
@@ -6665,13 +6669,11 @@ operate
             else if(v.dimension() == 10)
                 OperateHelperBinary<10, Functor, T1, T2, isConst, A, A>::operate(v, w, f, &v(0), &w(0));
             else {
-                typename View<T1, false>::iterator itV = v.begin();
-                typename View<T2, isConst>::const_iterator itW = w.begin();
-                for(; itV.hasMore(); ++itV, ++itW) {
-                    Assert(MARRAY_NO_DEBUG || itW.hasMore());
-                    f(*itV, *itW);
+                std::vector<size_t> coordinate(v.dimension());
+                for(typename View<T1, false>::iterator itV = v.begin(); itV.hasMore(); ++itV) {
+                    itV.coordinate(coordinate.begin());
+                    f(*itV, w(coordinate.begin()));
                 }
-                Assert(MARRAY_NO_DEBUG || !itW.hasMore());
             }
         }
     }
-- 
2.43.0


From 1bbaa0f27b043ba6163fb9ec719e80c42169e993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:58 +0000
Subject: [PATCH 054/224] fix: copying and assigning a sequence mixed up heap
 and stack storage

---
 .../opengm/datastructures/fast_sequence.hxx   | 28 ++++++-------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/include/opengm/datastructures/fast_sequence.hxx b/include/opengm/datastructures/fast_sequence.hxx
index d5ada69..37a9ddc 100644
--- a/include/opengm/datastructures/fast_sequence.hxx
+++ b/include/opengm/datastructures/fast_sequence.hxx
@@ -117,7 +117,7 @@ FastSequence<T, MAX_STACK>::FastSequence
    const  FastSequence<T, MAX_STACK> & other
 )
 :  size_(other.size_),
-   capacity_(other.capacity_)
+   capacity_(other.size_>MAX_STACK?other.size_:MAX_STACK)
 {
    OPENGM_ASSERT(size_<=capacity_);
    OPENGM_ASSERT(capacity_>=MAX_STACK);
@@ -148,27 +148,15 @@ FastSequence<T, MAX_STACK> & FastSequence<T, MAX_STACK>::operator=
 )
 {
    if(&other != this) {
-      // size_=other.size_;
-      // capacity_=other.capacity_;
-      // OPENGM_ASSERT(size_<=capacity_);
-      // OPENGM_ASSERT(capacity_>=MAX_STACK);
-      if(other.size_>MAX_STACK) {
-         // delete old sequence
-         if(size_>MAX_STACK) {
-            delete [] pointerToSequence_;
-            pointerToSequence_ = new T[other.size_];
+      if(other.size_>capacity_) {
+         T * tmp = new T[other.size_];
+         if(capacity_>MAX_STACK) {
+            delete[] pointerToSequence_;
          }
-         // nothing to delete
-         else{
-            pointerToSequence_ = new T[other.size_];
-         }
-         size_=other.size_;
-         capacity_=size_;
-      }
-      else{
-         pointerToSequence_=stackSequence_;
-         size_=other.size_;
+         pointerToSequence_=tmp;
+         capacity_=other.size_;
       }
+      size_=other.size_;
       std::copy(other.pointerToSequence_, other.pointerToSequence_+size_, pointerToSequence_);
    }
    return *this;
-- 
2.43.0


From 520be1dbfc718964ae4da84715c25c8a8402cdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:58 +0000
Subject: [PATCH 055/224] fix: appending an element of a full sequence to
 itself read freed memory

---
 include/opengm/datastructures/fast_sequence.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opengm/datastructures/fast_sequence.hxx b/include/opengm/datastructures/fast_sequence.hxx
index 37a9ddc..849dc2b 100644
--- a/include/opengm/datastructures/fast_sequence.hxx
+++ b/include/opengm/datastructures/fast_sequence.hxx
@@ -238,13 +238,16 @@ FastSequence<T, MAX_STACK>::push_back
    if(capacity_ == size_) {
       T * tmp=new T[capacity_ * 2];
       std::copy(pointerToSequence_, pointerToSequence_ + size_, tmp);
+      tmp[size_]=value; // value may be an element of this sequence
       if(capacity_ > MAX_STACK) {
          delete[] pointerToSequence_;
       }
       capacity_ *= 2;
       pointerToSequence_ = tmp;
    }
-   pointerToSequence_[size_]=value;
+   else {
+      pointerToSequence_[size_]=value;
+   }
    ++size_;
    OPENGM_ASSERT(size_<=capacity_);
    OPENGM_ASSERT(capacity_>=MAX_STACK);
-- 
2.43.0


From 03fe12c26d3ad8bad74c863eeadfb78d63a3a1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:58 +0000
Subject: [PATCH 056/224] fix: an empty buffer vector left its data pointer
 uninitialised

---
 include/opengm/datastructures/buffer_vector.hxx | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/opengm/datastructures/buffer_vector.hxx b/include/opengm/datastructures/buffer_vector.hxx
index b997815..acf652c 100644
--- a/include/opengm/datastructures/buffer_vector.hxx
+++ b/include/opengm/datastructures/buffer_vector.hxx
@@ -73,7 +73,8 @@ namespace opengm{
       const size_t size
    )
    :  size_(size),
-      capacity_(size) {
+      capacity_(size),
+      data_(NULL) {
       if(size_!=0) {
       data_ = new T[size];
       }
@@ -89,9 +90,12 @@ namespace opengm{
       const T & value
    )
    :  size_(size),
-      capacity_(size) {
-      data_ = new T[size];
-      std::fill(data_,data_+size_,value);
+      capacity_(size),
+      data_(NULL) {
+      if(size_!=0) {
+         data_ = new T[size];
+         std::fill(data_,data_+size_,value);
+      }
    }
    
    
@@ -103,7 +107,8 @@ namespace opengm{
       const  BufferVector<T> & other
    )
    :  size_(other.size_),
-      capacity_(other.size_)
+      capacity_(other.size_),
+      data_(NULL)
    {
       if(size_!=0) {
          data_ = new T[size_];
-- 
2.43.0


From d5fe843502f312a7f9a511c75e3aa2d0f6f67242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:58 +0000
Subject: [PATCH 057/224] fix: iterating over an empty buffer vector was
 refused

---
 include/opengm/datastructures/buffer_vector.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/opengm/datastructures/buffer_vector.hxx b/include/opengm/datastructures/buffer_vector.hxx
index acf652c..72f104d 100644
--- a/include/opengm/datastructures/buffer_vector.hxx
+++ b/include/opengm/datastructures/buffer_vector.hxx
@@ -170,7 +170,7 @@ namespace opengm{
    template<class T>
    inline T const *
    BufferVector<T>::begin() const{
-      OPENGM_ASSERT(data_!=NULL);
+      OPENGM_ASSERT(data_!=NULL || size_==0);
       return data_;
    }
    
@@ -178,7 +178,7 @@ namespace opengm{
    template<class T>
    inline T const *
    BufferVector<T>::end() const{
-      OPENGM_ASSERT(data_!=NULL);
+      OPENGM_ASSERT(data_!=NULL || size_==0);
       return data_ + size_;
    }
    
@@ -186,7 +186,7 @@ namespace opengm{
    template<class T>
    inline T * const
    BufferVector<T>::begin() {
-      OPENGM_ASSERT(data_!=NULL);
+      OPENGM_ASSERT(data_!=NULL || size_==0);
       return data_;
    }
    
@@ -194,7 +194,7 @@ namespace opengm{
    template<class T>
    inline T * const
    BufferVector<T>::end() {
-      OPENGM_ASSERT(data_!=NULL);
+      OPENGM_ASSERT(data_!=NULL || size_==0);
       return data_ + size_;
    }
    
-- 
2.43.0


From 00e3b3a4aabc8ded76a850457c18963db9f69c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:59 +0000
Subject: [PATCH 058/224] fix: growing a cleared buffer vector leaked and
 reserving changed its size

---
 .../opengm/datastructures/buffer_vector.hxx   | 54 +++++++------------
 1 file changed, 19 insertions(+), 35 deletions(-)

diff --git a/include/opengm/datastructures/buffer_vector.hxx b/include/opengm/datastructures/buffer_vector.hxx
index 72f104d..2039aee 100644
--- a/include/opengm/datastructures/buffer_vector.hxx
+++ b/include/opengm/datastructures/buffer_vector.hxx
@@ -233,20 +233,17 @@ namespace opengm{
    ) {
       OPENGM_ASSERT(size_<=capacity_);
       if(capacity_==size_) {
-         if(size_!=0) {
-            T * tmp=new T[capacity_*2];
-            std::copy(data_,data_+size_,tmp);
-            delete[] data_;
-            capacity_*=2;
-            data_=tmp;
-         }
-         else{
-            T * tmp=new T[2];
-            capacity_=2;
-            data_=tmp;
-         }
+         const size_t capacity = capacity_==0 ? 2 : capacity_*2;
+         T * tmp=new T[capacity];
+         std::copy(data_,data_+size_,tmp);
+         tmp[size_]=value; // value may be an element of this vector
+         delete[] data_;
+         capacity_=capacity;
+         data_=tmp;
+      }
+      else{
+         data_[size_]=value;
       }
-      data_[size_]=value;
       ++size_;
       OPENGM_ASSERT(size_<=capacity_);
    }
@@ -261,17 +258,11 @@ namespace opengm{
    ) {
       OPENGM_ASSERT(size_<=capacity_);
       if(size>capacity_) {
-         if(size_!=0) {
-            T * tmp=new T[size];
-            std::copy(data_,data_+size_,tmp);
-            delete[] data_;
-            capacity_=size;
-            data_=tmp;
-         }
-         else{
-            data_=new T[size];
-            capacity_=size;
-         }
+         T * tmp=new T[size];
+         std::copy(data_,data_+size_,tmp);
+         delete[] data_;
+         capacity_=size;
+         data_=tmp;
       }
       size_=size;
       OPENGM_ASSERT(size_<=capacity_);
@@ -287,19 +278,12 @@ namespace opengm{
    ) {
       OPENGM_ASSERT(size_<=capacity_);
       if(size>capacity_) {
-         if(size_!=0) {
-            T * tmp=new T[size];
-            std::copy(data_,data_+size_,tmp);
-            delete[] data_;
-            data_=tmp;
-         }
-         else{
-            data_=new T[size];
-         }
-         size_=size;
+         T * tmp=new T[size];
+         std::copy(data_,data_+size_,tmp);
+         delete[] data_;
+         data_=tmp;
          capacity_=size;
       }
-      //size_=size;
       OPENGM_ASSERT(size_<=capacity_);
    }
    
-- 
2.43.0


From 660c367a91ef535e4c78de6034c34f19253ae741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:59 +0000
Subject: [PATCH 059/224] fix: disjoint sets leaked and shared their elements
 when copied

---
 include/opengm/utilities/disjoint-set.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/utilities/disjoint-set.hxx b/include/opengm/utilities/disjoint-set.hxx
index 84998e7..678d331 100644
--- a/include/opengm/utilities/disjoint-set.hxx
+++ b/include/opengm/utilities/disjoint-set.hxx
@@ -30,7 +30,7 @@ namespace opengm{
     
   private:
     
-    elem *elements_;
+    std::vector<elem> elements_;
     T numberOfElements_;
     T numberOfSets_;
     
@@ -46,7 +46,7 @@ namespace opengm{
   template<class T>
   disjoint_set<T>::disjoint_set(T numberOfElements){
     
-    elements_ = new elem[numberOfElements];
+    elements_.resize(numberOfElements);
     numberOfElements_ = numberOfElements;
     numberOfSets_ = numberOfElements;
     for(T i=0;i < numberOfElements;++i){
-- 
2.43.0


From 8b6e488bdbd2ecae45116229dcac361bfdf77d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:59 +0000
Subject: [PATCH 060/224] fix: reverse iteration over a random access set did
 not compile

---
 .../opengm/datastructures/randomaccessset.hxx  | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/opengm/datastructures/randomaccessset.hxx b/include/opengm/datastructures/randomaccessset.hxx
index 7fd5b4f..917a1cd 100644
--- a/include/opengm/datastructures/randomaccessset.hxx
+++ b/include/opengm/datastructures/randomaccessset.hxx
@@ -49,6 +49,8 @@ public:
    typedef typename VectorType::difference_type	difference_type;
    /// const pointer type
    typedef typename VectorType::const_pointer const_pointer;
+   /// reverse iterator
+   typedef typename VectorType::reverse_iterator	reverse_iterator;
    /// const reverse iterator
    typedef typename VectorType::const_reverse_iterator	const_reverse_iterator;
 
@@ -67,13 +69,13 @@ public:
    // iterators
    const_iterator begin() const;
    const_iterator end() const;
-   const_iterator rbegin() const;
-   const_iterator rend() const;
+   const_reverse_iterator rbegin() const;
+   const_reverse_iterator rend() const;
 
    iterator begin();
    iterator end();
-   iterator rbegin();
-   iterator rend();
+   reverse_iterator rbegin();
+   reverse_iterator rend();
    bool empty() const;
    size_type size() const;
    size_type max_size() const;
@@ -232,7 +234,7 @@ RandomAccessSet<Key,Compare,Alloc>::end() const
 /// reverse const begin iterator
 /// \returns reverse begin iterator
 template<class Key, class Compare, class Alloc>
-inline typename RandomAccessSet<Key,Compare,Alloc>::const_iterator
+inline typename RandomAccessSet<Key,Compare,Alloc>::const_reverse_iterator
 RandomAccessSet<Key,Compare,Alloc>::rbegin() const
 {
    return vector_.rbegin();
@@ -241,7 +243,7 @@ RandomAccessSet<Key,Compare,Alloc>::rbegin() const
 /// reverse const end iterator
 /// \param reverse end iterator
 template<class Key, class Compare, class Alloc>
-inline typename RandomAccessSet<Key,Compare,Alloc>::const_iterator
+inline typename RandomAccessSet<Key,Compare,Alloc>::const_reverse_iterator
 RandomAccessSet<Key,Compare,Alloc>::rend() const
 {
     return vector_.rend();
@@ -268,7 +270,7 @@ RandomAccessSet<Key,Compare,Alloc>::end()
 /// reverse  begin iterator
 /// \param reverse begin iterator
 template<class Key, class Compare, class Alloc>
-inline typename RandomAccessSet<Key,Compare,Alloc>::iterator
+inline typename RandomAccessSet<Key,Compare,Alloc>::reverse_iterator
 RandomAccessSet<Key,Compare,Alloc>::rbegin()
 {
    return vector_.rbegin();
@@ -277,7 +279,7 @@ RandomAccessSet<Key,Compare,Alloc>::rbegin()
 /// reverse end iterator
 /// \param reverse end iterator
 template<class Key, class Compare, class Alloc>
-inline typename RandomAccessSet<Key,Compare,Alloc>::iterator
+inline typename RandomAccessSet<Key,Compare,Alloc>::reverse_iterator
 RandomAccessSet<Key,Compare,Alloc>::rend()
 {
     return vector_.rend();
-- 
2.43.0


From f5263b5d80410b39cc57403e1067d4e148929826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:59 +0000
Subject: [PATCH 061/224] fix: hinted insertion into a random access set did
 not compile

---
 include/opengm/datastructures/randomaccessset.hxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/opengm/datastructures/randomaccessset.hxx b/include/opengm/datastructures/randomaccessset.hxx
index 917a1cd..a447842 100644
--- a/include/opengm/datastructures/randomaccessset.hxx
+++ b/include/opengm/datastructures/randomaccessset.hxx
@@ -365,9 +365,11 @@ RandomAccessSet<Key,Compare,Alloc>::insert
    const typename RandomAccessSet<Key,Compare,Alloc>::value_type& value
 )
 {
-   if((position == begin() || this->operator()(*(position-1),value))
-   && (position == end() || this->operator()(value, *position))) {
-       return vector_.insert(position, value);
+   const const_iterator first = vector_.begin();
+   const const_iterator last = vector_.end();
+   if((position == first || compare_(*(position-1), value))
+   && (position == last || compare_(value, *position))) {
+       return vector_.insert(vector_.begin() + (position - first), value);
    }
    return insert(value).first;
 }
@@ -413,7 +415,8 @@ RandomAccessSet<Key,Compare,Alloc>::erase
    const typename RandomAccessSet<Key,Compare,Alloc>::const_iterator last
 )
 {
-   vector_.erase(first,last);
+   const const_iterator b = vector_.begin();
+   vector_.erase(vector_.begin() + (first - b), vector_.begin() + (last - b));
 }
 
 /// swap random access sets
-- 
2.43.0


From d8647870390ff52efe2136711efc098a1d8eee56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:59 +0000
Subject: [PATCH 062/224] fix: swapping random access sets did not swap their
 comparators

---
 include/opengm/datastructures/randomaccessset.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/datastructures/randomaccessset.hxx b/include/opengm/datastructures/randomaccessset.hxx
index a447842..a82b676 100644
--- a/include/opengm/datastructures/randomaccessset.hxx
+++ b/include/opengm/datastructures/randomaccessset.hxx
@@ -429,7 +429,7 @@ RandomAccessSet<Key,Compare,Alloc>::swap
 )
 {
    vector_.swap(rhs.vector_);
-   compare_=rhs.compare_;
+   std::swap(compare_, rhs.compare_);
 }
 
 /// clear the set
-- 
2.43.0


From c59bd62faea66adc9c917cbee4b89997c4ce2abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:59 +0000
Subject: [PATCH 063/224] fix: an undecided or true tribool compared wrongly
 with false

---
 include/opengm/utilities/tribool.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/tribool.hxx b/include/opengm/utilities/tribool.hxx
index 30b4706..084fc62 100644
--- a/include/opengm/utilities/tribool.hxx
+++ b/include/opengm/utilities/tribool.hxx
@@ -126,7 +126,7 @@ namespace opengm {
    ) const
    {
       return (value_ != Tribool::True && a == true)
-         || (value_ != Tribool::True && a == false);
+         || (value_ != Tribool::False && a == false);
    }
 
    inline Tribool::operator bool() const
-- 
2.43.0


From c47a23f6817c0a1095daa8ce64c77673ea4d02ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:43 +0000
Subject: [PATCH 064/224] fix: a sub-shape walker treated unsorted fixed
 coordinates as free

---
 include/opengm/utilities/indexing.hxx | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/opengm/utilities/indexing.hxx b/include/opengm/utilities/indexing.hxx
index 1f1f367..d378b83 100644
--- a/include/opengm/utilities/indexing.hxx
+++ b/include/opengm/utilities/indexing.hxx
@@ -55,13 +55,12 @@ namespace opengm {
 
       /// increment coordinate in last - coordinate major order  (therefore the first coordinate is incremented first)
       inline SubShapeWalker & operator++() {
-         size_t counter = 0;
          for(size_t d = 0; d < dimension_; ++d) {
             bool atFixedValue = false;
-            for(size_t i = counter; i < fixedCoordinateIndex_.size(); ++i) {
+            for(size_t i = 0; i < fixedCoordinateIndex_.size(); ++i) {
                if(d == fixedCoordinateIndex_[i]) {
                   atFixedValue = true;
-                  ++counter;
+                  break;
                }
             }
             if(atFixedValue == false) {
@@ -91,14 +90,12 @@ namespace opengm {
       /// get the number of elements over which one wants to walk
       size_t subSize() {
          size_t result = 1;
-         size_t counter = 0;
          for(size_t d = 0; d < dimension_; ++d) {
             bool fixedVal = false;
-            for(size_t i = counter; i < fixedCoordinateIndex_.size(); ++i) {
-               if(d == fixedCoordinateIndex_[i]) ///??? replace i with counter for old version
+            for(size_t i = 0; i < fixedCoordinateIndex_.size(); ++i) {
+               if(d == fixedCoordinateIndex_[i])
                {
                   fixedVal = true;
-                  counter++;
                   break;
                }
             }
-- 
2.43.0


From eed960f9058c25d16023afe594ff20a5e2c31454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:43 +0000
Subject: [PATCH 065/224] fix: iterating over the variables of a factor yielded
 label counts

---
 include/opengm/utilities/shape_accessor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/shape_accessor.hxx b/include/opengm/utilities/shape_accessor.hxx
index 6d9b45e..a398d26 100644
--- a/include/opengm/utilities/shape_accessor.hxx
+++ b/include/opengm/utilities/shape_accessor.hxx
@@ -162,7 +162,7 @@ namespace opengm {
       IndexType size() const 
          { return factor_ == 0 ? 0 : factor_->numberOfVariables(); }
       reference operator[](const size_t j) 
-         { return factor_->numberOfLabels(j); }
+         { return factor_->variableIndex(j); }
       const value_type operator[](const size_t j) const 
          { return factor_->variableIndex(j); }
       bool operator==(const FactorVariablesAccessor<FACTOR> & other) const 
-- 
2.43.0


From 1af511011ef4912adfa50b7b0ecf4bfae5610e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:43 +0000
Subject: [PATCH 066/224] fix: comparing factor label iterators did not compile

---
 include/opengm/utilities/shape_accessor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/shape_accessor.hxx b/include/opengm/utilities/shape_accessor.hxx
index a398d26..dc52456 100644
--- a/include/opengm/utilities/shape_accessor.hxx
+++ b/include/opengm/utilities/shape_accessor.hxx
@@ -132,7 +132,7 @@ namespace opengm {
          { return gmLabelIter_[factor_->variableIndex(j)]; }
       const value_type operator[](const size_t j) const 
          { return gmLabelIter_[factor_->variableIndex(j)]; }
-      bool operator==(const FactorShapeAccessor<FACTOR> & other) const 
+      bool operator==(const GmLabelFactorLabelAccessor & other) const 
       { return factor_ == other.factor_ && gmLabelIter_==other.gmLabelIter_; 
       }
    
-- 
2.43.0


From 98a1cd49dba00d445426aa72659d10d1ad0c2cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:43 +0000
Subject: [PATCH 067/224] fix: dereferencing a constant accessor iterator
 returned a dangling reference

---
 include/opengm/utilities/accessor_iterator.hxx | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/opengm/utilities/accessor_iterator.hxx b/include/opengm/utilities/accessor_iterator.hxx
index a9bec89..1a60a85 100644
--- a/include/opengm/utilities/accessor_iterator.hxx
+++ b/include/opengm/utilities/accessor_iterator.hxx
@@ -75,6 +75,12 @@ public:
       >::type,
       value_type&
    >::type reference;
+   typedef typename meta::If
+   <
+      meta::IsFundamental<value_type>::value,
+      const value_type,
+      const value_type&
+   >::type const_reference; // by value if fundamental since accessors may return by value
    typedef size_t difference_type;
    typedef std::random_access_iterator_tag iterator_category;
 
@@ -96,9 +102,9 @@ public:
    pointer operator->();
    const value_type* operator->() const;
    reference operator*();
-   const value_type& operator*() const;
+   const_reference operator*() const;
    reference operator[](const size_t);
-   const value_type& operator[](const size_t) const;
+   const_reference operator[](const size_t) const;
 
    AccessorIterator<A, isConst>& operator++();
    AccessorIterator<A, isConst> operator++(int);
@@ -225,7 +231,7 @@ AccessorIterator<A, isConst>::operator->() const
 }
 
 template<class A, bool isConst>
-inline const typename AccessorIterator<A, isConst>::value_type&
+inline typename AccessorIterator<A, isConst>::const_reference
 AccessorIterator<A, isConst>::operator*() const
 {
    OPENGM_ASSERT(index_ < accessor_.size());
@@ -241,7 +247,7 @@ AccessorIterator<A, isConst>::operator*()
 }
 
 template<class A, bool isConst>
-inline const typename AccessorIterator<A, isConst>::value_type&
+inline typename AccessorIterator<A, isConst>::const_reference
 AccessorIterator<A, isConst>::operator[]
 (
    const size_t j
-- 
2.43.0


From aa2e334a559264c814abed173dbf2f0c3f790af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:43 +0000
Subject: [PATCH 068/224] fix: the canonical view of a multiplicative model
 made every value zero

---
 include/opengm/utilities/canonical_view.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/canonical_view.hxx b/include/opengm/utilities/canonical_view.hxx
index cd3a342..622c1c0 100644
--- a/include/opengm/utilities/canonical_view.hxx
+++ b/include/opengm/utilities/canonical_view.hxx
@@ -279,7 +279,7 @@ public:
 			switch (unaryFactors[i].size()) {
 			case 0: { // Create new “empty” factor.
 				LabelType shape[1] = { gm.numberOfLabels(i) };
-				ConstFuncType func(shape, shape+1, 0);
+				ConstFuncType func(shape, shape+1, Parent::OperatorType::template neutral<ValueType>());
 				fid = this->addFunction(func);
 				break;
 			}
-- 
2.43.0


From 94a10e5656088e0d2dc2d04948c50785933ca66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:55 +0000
Subject: [PATCH 069/224] fix: comparing constant and mutable accessor
 iterators did not compile

---
 include/opengm/utilities/accessor_iterator.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opengm/utilities/accessor_iterator.hxx b/include/opengm/utilities/accessor_iterator.hxx
index 1a60a85..aba8078 100644
--- a/include/opengm/utilities/accessor_iterator.hxx
+++ b/include/opengm/utilities/accessor_iterator.hxx
@@ -123,6 +123,8 @@ private:
 
    Accessor accessor_;
    size_t index_;
+
+   template<class A_, bool isConst_> friend class AccessorIterator;
 };
 
 // binary arithmetic operators
-- 
2.43.0


From 591e37407992012adc00daaaec39b098097aafd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:49 +0000
Subject: [PATCH 070/224] fix: A* did not terminate when two factors connected
 the same pair of variables

---
 include/opengm/inference/astar.hxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index d1a19e6..882591a 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -236,10 +236,14 @@ namespace opengm {
       //Check FactorIds
       if(parameter_.treeFactorIds_.size()==0) {
          //Select tree factors
+         std::set<IndexType> connected;
          for(size_t i=0; i<gm_.numberOfFactors(); ++i) {
-            if((gm_[i].numberOfVariables()==2) &&
-               (gm_[i].variableIndex(0)==parameter_.nodeOrder_.back() || gm_[i].variableIndex(1)==parameter_.nodeOrder_.back())
-               )
+            if(gm_[i].numberOfVariables()!=2) continue;
+            const IndexType root = parameter_.nodeOrder_.back();
+            if(gm_[i].variableIndex(0)!=root && gm_[i].variableIndex(1)!=root) continue;
+            // a second factor of the same two variables would close a cycle
+            const IndexType other = gm_[i].variableIndex(0)==root ? gm_[i].variableIndex(1) : gm_[i].variableIndex(0);
+            if(connected.insert(other).second)
                parameter_.addTreeFactorId(i);
          }
       }
-- 
2.43.0


From 30faf3dc0ba2b2715c567cc01f49e3168e087cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:49 +0000
Subject: [PATCH 071/224] fix: A* with the fast heuristic mishandled factors of
 more than two variables

---
 include/opengm/inference/astar.hxx | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index 882591a..8d6bcc8 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -614,15 +614,24 @@ namespace opengm {
          }
          if(nvar>2) {
             bool covered = true;
-            std::vector<size_t> state(nvar);
+            std::vector<LabelType> state(nvar);
             for(size_t j=0; j<nvar; ++j) {
                if(nodeLabel[f.variableIndex(j)]<0) {
-                  state[j] = nodeLabel[f.variableIndex(j)];
                   covered = false;
                }
+               else{
+                  state[j] = nodeLabel[f.variableIndex(j)];
+               }
+            }
+            if(nodeLabel[f.variableIndex(0)]>=0) {
+               nodeEnergy[f.variableIndex(0)].resize(1);
+               if(covered) {
+                  OperatorType::op(f(state.begin()), nodeEnergy[f.variableIndex(0)][0]);
+               }
+               else{
+                  OperatorType::op(optimizedFactor_[i](state.begin()), nodeEnergy[f.variableIndex(0)][0]);
+               }
             }
-            if(covered)
-               nodeEnergy[f.variableIndex(0)][0] = f(state.begin());
             else{
                for(size_t j=0;j<numStates_[f.variableIndex(0)];++j) {
                   //nodeEnergy[f.variableIndex(0)][j] = operation(optimizedFactor_[i](j), nodeEnergy[f.variableIndex(0)][j]);
-- 
2.43.0


From 010e1a59ad077b7b64e4e35ca6143feee6e2f1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:49 +0000
Subject: [PATCH 072/224] fix: the standard heuristic of A* attributed a
 factor's first variable to another one once it was labelled

---
 include/opengm/inference/astar.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index 8d6bcc8..6070090 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -457,6 +457,9 @@ namespace opengm {
                if(MVars.size()<2 || isTreeFactor_[f]){
                   const ViewFixVariablesFunction<GM> func(gm_[f], fixedVars);
                   mgm.addFactor(mgm.addFunction(func),MVars.begin(), MVars.end());
+               }else if(fixVariable[optimizedFactor_[f].variableIndex(0)]){
+                  const LabelType label = fixVariableLabel[optimizedFactor_[f].variableIndex(0)];
+                  GM::OperatorType::op(optimizedFactor_[f](label),constant);
                }else{
                   std::vector<IndexType> variablesIndices(optimizedFactor_[f].numberOfVariables());
                   for(size_t i=0; i<variablesIndices.size(); ++i)
-- 
2.43.0


From 02eaaab74a578cec6fe88e039504b644d6c3b14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:49 +0000
Subject: [PATCH 073/224] fix: the fast heuristic of A* left constant factors
 out of its bound

---
 include/opengm/inference/astar.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index 6070090..106a9f1 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -544,9 +544,15 @@ namespace opengm {
       // * add unarry function
       // * add pairwise functions with at least one observed node
       // * add the approximation for pairwise none-tree edges
+      ValueType result;
+      OperatorType::neutral(result);
       for(size_t i=0; i<gm_.numberOfFactors(); ++i) {
          const FactorType & f    = gm_[i];
          size_t nvar = f.numberOfVariables();
+         if(nvar==0) {
+            LabelType coordinates[]={0};
+            OperatorType::op(f(coordinates), result);
+         }
          //factors depending from 1 variable can be include
          if(nvar==1) {
             int index = f.variableIndex(0);
@@ -701,9 +707,7 @@ namespace opengm {
          }
       }
       //Evaluate
-      ValueType result;
       ValueType min;
-      OperatorType::neutral(result);
       std::vector<ValueType > bound;
       for(size_t i=0;i<numNodes_;++i) {
          if(i==nextNode) continue;
-- 
2.43.0


From 8e5d5d7deca29b64959c917920b13be652f842f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:49 +0000
Subject: [PATCH 074/224] fix: a second run of A* continued with the leftovers
 of the first and reported a worse labeling as optimal

---
 include/opengm/inference/astar.hxx | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index 106a9f1..f5d8799 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -261,12 +261,6 @@ namespace opengm {
          OPENGM_ASSERT(optimizedFactor_[i].numberOfVariables() == 1);
          OPENGM_ASSERT(optimizedFactor_[i].variableIndex(0) == index[0]);
       }
-      //PUSH EMPTY CONFIGURATION TO HEAP
-      AStarNode<IndependentFactorType> a;
-      a.conf.resize(0);
-      a.value = 0;
-      array_.push_back(a);
-      make_heap(array_.begin(), array_.end(), comp1);
       //Check if maximal order is smaller equal 2, otherwise fall back to naive computation of heuristic
       if(parameter_.heuristic_ == parameter_.FASTHEURISTIC) {
          for(size_t i=0; i<parameter_.treeFactorIds_.size(); ++i) {
@@ -284,19 +278,24 @@ namespace opengm {
          isTreeFactor_[factorId] = true;
          treeFactor_.push_back(gm_[factorId]);
       }
+      reset();
    }
   
    /// \brief reset
    ///
    /// \warning  reset assumes that the structure of
    /// the graphical model has not changed
-   ///
-   /// TODO
    template<class GM, class ACC >
    void
    AStar<GM,ACC>::reset()
    {
-      ///todo
+      optConf_.clear();
+      ACC::ineutral(belowBound_);
+      ACC::neutral(aboveBound_);
+      //PUSH EMPTY CONFIGURATION TO HEAP
+      AStarNode<IndependentFactorType> a;
+      a.value = 0;
+      array_.assign(1, a);
    }
 
    template <class GM, class ACC>
@@ -314,7 +313,7 @@ namespace opengm {
    InferenceTermination AStar<GM,ACC>::infer(VisitorType& visitor)
    { 
       size_t exitFlag=0;
-      optConf_.resize(0);
+      reset();
       visitor.begin(*this);    
       while(array_.size()>0 && exitFlag==0) {
          if(parameter_.numberOfOpt_ == optConf_.size()) {
-- 
2.43.0


From bbcd83ce6339478a1fde96c9f5a15da08b82162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:49 +0000
Subject: [PATCH 075/224] fix: A* ignored a visitor that asked to stop after
 one of several labelings

---
 include/opengm/inference/astar.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index f5d8799..4fd3647 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -334,7 +334,7 @@ namespace opengm {
                conf[parameter_.nodeOrder_[n]] = array_.front().conf[n];
             } 
             optConf_.push_back(conf);
-            visitor(*this);
+            exitFlag = visitor(*this);
             if(ACC::bop(parameter_.objectiveBound_, value)) {
                visitor.end(*this);
                return NORMAL;
-- 
2.43.0


From a6cc0fc9386c13ee42c6a367bae341d4070025b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:49 +0000
Subject: [PATCH 076/224] fix: converted A* parameters had an uninitialised
 heuristic

---
 include/opengm/inference/astar.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index 4fd3647..634ca0a 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -110,6 +110,7 @@ namespace opengm {
         :   maxHeapSize_(p.maxHeapSize_),
             numberOfOpt_(p.numberOfOpt_),
             objectiveBound_(p.objectiveBound_),
+            heuristic_(p.heuristic_),
             nodeOrder_(p.nodeOrder_),
             treeFactorIds_(p.treeFactorIds_){
         }
-- 
2.43.0


From bbe9dbaf8d096913f2e2ad555175db1f59a1948d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:49 +0000
Subject: [PATCH 077/224] fix: exhaustive search built with parameters reported
 the value zero before inference

---
 include/opengm/inference/bruteforce.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/bruteforce.hxx b/include/opengm/inference/bruteforce.hxx
index 2548293..d0a2ee0 100644
--- a/include/opengm/inference/bruteforce.hxx
+++ b/include/opengm/inference/bruteforce.hxx
@@ -92,7 +92,9 @@ Bruteforce<GM, AKK>::Bruteforce
    movemaker_(Movemaker<GM>(gm)),
    states_(std::vector<typename GM::LabelType>(gm.numberOfVariables())),
    energy_(typename Bruteforce<GM, AKK>::ValueType())
-{}
+{
+   AKK::neutral(energy_);
+}
 
 template<class GM, class AKK>
 template<class VISITOR>
-- 
2.43.0


From ba6bcd9e482da98c4aab5d0c41d867a8429c1f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 078/224] fix: the fast heuristic of A* valued complete
 labelings by bounds of their factors of more than two variables

---
 include/opengm/inference/astar.hxx | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index 634ca0a..fc5a44f 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -622,25 +622,33 @@ namespace opengm {
             }
          }
          if(nvar>2) {
-            bool covered = true;
+            size_t numberOfOpen = 0;
+            size_t open = 0;
             std::vector<LabelType> state(nvar);
             for(size_t j=0; j<nvar; ++j) {
                if(nodeLabel[f.variableIndex(j)]<0) {
-                  covered = false;
+                  open = j;
+                  ++numberOfOpen;
                }
                else{
                   state[j] = nodeLabel[f.variableIndex(j)];
                }
             }
-            if(nodeLabel[f.variableIndex(0)]>=0) {
+            if(numberOfOpen==0) {
                nodeEnergy[f.variableIndex(0)].resize(1);
-               if(covered) {
-                  OperatorType::op(f(state.begin()), nodeEnergy[f.variableIndex(0)][0]);
-               }
-               else{
-                  OperatorType::op(optimizedFactor_[i](state.begin()), nodeEnergy[f.variableIndex(0)][0]);
+               OperatorType::op(f(state.begin()), nodeEnergy[f.variableIndex(0)][0]);
+            }
+            else if(numberOfOpen==1) {
+               const size_t index = f.variableIndex(open);
+               for(size_t j=0;j<numStates_[index];++j) {
+                  state[open] = static_cast<LabelType>(j);
+                  OperatorType::op(f(state.begin()), nodeEnergy[index][j]);
                }
             }
+            else if(nodeLabel[f.variableIndex(0)]>=0) {
+               nodeEnergy[f.variableIndex(0)].resize(1);
+               OperatorType::op(optimizedFactor_[i](state.begin()), nodeEnergy[f.variableIndex(0)][0]);
+            }
             else{
                for(size_t j=0;j<numStates_[f.variableIndex(0)];++j) {
                   //nodeEnergy[f.variableIndex(0)][j] = operation(optimizedFactor_[i](j), nodeEnergy[f.variableIndex(0)][j]);
-- 
2.43.0


From cd4dd62720da66e7db7fc9510aef5e9237f19d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 079/224] fix: A* ignored the constants of a model without
 variables

---
 include/opengm/inference/astar.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index fc5a44f..fc77af2 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -296,6 +296,8 @@ namespace opengm {
       //PUSH EMPTY CONFIGURATION TO HEAP
       AStarNode<IndependentFactorType> a;
       a.value = 0;
+      if(numNodes_ == 0)
+         a.value = gm_.evaluate(a.conf);
       array_.assign(1, a);
    }
 
-- 
2.43.0


From dbfc93af5ec41e06e3791466a077ef0329656365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 080/224] fix: dynamic programming left variables unordered
 when roots were given

---
 .../opengm/inference/dynamicprogramming.hxx   | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/opengm/inference/dynamicprogramming.hxx b/include/opengm/inference/dynamicprogramming.hxx
index 436c36e..e9d7b56 100644
--- a/include/opengm/inference/dynamicprogramming.hxx
+++ b/include/opengm/inference/dynamicprogramming.hxx
@@ -113,15 +113,20 @@ namespace opengm {
     size_t rootCounter=0;
     while(varCount < gm_.numberOfVariables() && orderCount < gm_.numberOfVariables()){
       if(rootCounter<para_.roots_.size()){
-        nodeOrder_[para_.roots_[rootCounter]] = orderCount++;
-        nodeList.push_back(para_.roots_[rootCounter]);
-        ++rootCounter;
+        const size_t root = para_.roots_[rootCounter++];
+        // only the first root of each connected component counts
+        if(nodeOrder_[root]==std::numeric_limits<std::size_t>::max()){
+          nodeOrder_[root] = orderCount++;
+          nodeList.push_back(root);
+        }
       }
-      else if(nodeOrder_[varCount]==std::numeric_limits<std::size_t>::max()){
-        nodeOrder_[varCount] = orderCount++;
-        nodeList.push_back(varCount);
+      else{
+        if(nodeOrder_[varCount]==std::numeric_limits<std::size_t>::max()){
+          nodeOrder_[varCount] = orderCount++;
+          nodeList.push_back(varCount);
+        }
+        ++varCount;
       }
-      ++varCount;
       while(nodeList.size()>0){
         size_t node = nodeList.back();
         nodeList.pop_back();
-- 
2.43.0


From e558525bfba9e770ff9cbb96d16d410f8081b552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 081/224] fix: dynamic programming with given roots did not
 start from them when reading off the labels

---
 include/opengm/inference/dynamicprogramming.hxx | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/opengm/inference/dynamicprogramming.hxx b/include/opengm/inference/dynamicprogramming.hxx
index e9d7b56..b23ebaf 100644
--- a/include/opengm/inference/dynamicprogramming.hxx
+++ b/include/opengm/inference/dynamicprogramming.hxx
@@ -278,11 +278,14 @@ namespace opengm {
        if(inferenceStarted_) {
          std::vector<size_t> nodeList;
          arg.assign(gm_.numberOfVariables(), std::numeric_limits<LabelType>::max() );
-         size_t var = 0;
-         while(var < gm_.numberOfVariables()){
+         size_t order = 0;
+         while(order < gm_.numberOfVariables()){
+           // the first variable of a connected component in this order is its root
+           const size_t var = orderedNodes_[order];
            if(arg[var]==std::numeric_limits<LabelType>::max()){
-             MyValueType v; ACC::neutral(v);
-             for(size_t i=0; i<gm_.numberOfLabels(var); ++i){
+             MyValueType v = valueBuffers_[var][0];
+             arg[var] = 0;
+             for(size_t i=1; i<gm_.numberOfLabels(var); ++i){
                if(ACC::bop(valueBuffers_[var][i], v)){
                  v = valueBuffers_[var][i];
                  arg[var]=i;
@@ -290,7 +293,7 @@ namespace opengm {
              }
              nodeList.push_back(var);
            }
-           ++var;
+           ++order;
            while(nodeList.size()>0){
              size_t node = nodeList.back();
              size_t childrenCounter = 0;
-- 
2.43.0


From 0ce6b28e7d3e962cac480f75c8b0e5a44ec6549f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 082/224] fix: dynamic programming stored uninitialised labels
 when all values of a branch were infinite

---
 include/opengm/inference/dynamicprogramming.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/dynamicprogramming.hxx b/include/opengm/inference/dynamicprogramming.hxx
index b23ebaf..03ad25e 100644
--- a/include/opengm/inference/dynamicprogramming.hxx
+++ b/include/opengm/inference/dynamicprogramming.hxx
@@ -215,7 +215,7 @@ namespace opengm {
           size_t vec[] = {0,0};
           if(factor.variableIndex(0) == node && nodeOrder_[factor.variableIndex(1)]>nodeOrder_[node] ){
             const size_t node2 = factor.variableIndex(1);
-            MyStateType s;
+            MyStateType s = 0;
             MyValueType v,v2;
             for(vec[0]=0; vec[0]<gm_.numberOfLabels(node); ++vec[0]){
               ACC::neutral(v);
@@ -235,7 +235,7 @@ namespace opengm {
           }
           if(factor.variableIndex(1) == node && nodeOrder_[factor.variableIndex(0)]>nodeOrder_[node]){ 
             const size_t node2 = factor.variableIndex(0);
-            MyStateType s;
+            MyStateType s = 0;
             MyValueType v,v2;
             for(vec[1]=0; vec[1]<gm_.numberOfLabels(node); ++vec[1]){
               ACC::neutral(v);
-- 
2.43.0


From 94aefb32dc42d4e7de22e7ba025ff7a375f138d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 083/224] fix: a single step of message passing did not compile

---
 include/opengm/inference/messagepassing/messagepassing.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/messagepassing/messagepassing.hxx b/include/opengm/inference/messagepassing/messagepassing.hxx
index 56a854b..40f4b01 100644
--- a/include/opengm/inference/messagepassing/messagepassing.hxx
+++ b/include/opengm/inference/messagepassing/messagepassing.hxx
@@ -395,7 +395,7 @@ inline void MessagePassing<GM, ACC, UPDATE_RULES, DIST>::propagate
    const ValueType& damping
 ) {
    for (size_t i = 0; i < variableHulls_.size(); ++i) {
-      variableHulls_[i].propagateAll(damping, false);
+      variableHulls_[i].propagateAll(gm_, damping, false);
    }
    for (size_t i = 0; i < factorHulls_.size(); ++i) {
       factorHulls_[i].propagateAll(damping, parameter_.useNormalization_);
-- 
2.43.0


From 9c31e4d5f231920b7dae9af92aede4652b008a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 084/224] fix: resetting message passing kept the old messages

---
 .../opengm/inference/messagepassing/messagepassing_buffer.hxx   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opengm/inference/messagepassing/messagepassing_buffer.hxx b/include/opengm/inference/messagepassing/messagepassing_buffer.hxx
index 2bfeb7c..973b42b 100644
--- a/include/opengm/inference/messagepassing/messagepassing_buffer.hxx
+++ b/include/opengm/inference/messagepassing/messagepassing_buffer.hxx
@@ -110,6 +110,8 @@ namespace opengm {
          buffer2_ = constant;
       }
       else {
+         buffer1_.assign();
+         buffer2_.assign();
          buffer1_.resize(&shape, &shape+1, constant);
          buffer2_.resize(&shape, &shape+1, constant);
       }
-- 
2.43.0


From 78923a494d288d2408c4df55c837ede385189f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 085/224] fix: the spanning tree decomposition of a model
 without factors missed its variables

---
 .../graphicalmodel/decomposition/graphicalmodeldecomposer.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx b/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx
index f864bba..75b4650 100644
--- a/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx
+++ b/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx
@@ -138,7 +138,7 @@ decomposeIntoSpanningTrees
       whiteList.push_back(j);
    }
      
-   while(!whiteList.empty()) {
+   do { // a model without factors has one subproblem
       size_t subModelId  = decomposition.addSubModel();
       for(size_t variableId=0; variableId<gm.numberOfVariables();++variableId) {
          decomposition.addSubVariable(subModelId,variableId);
@@ -194,7 +194,7 @@ decomposeIntoSpanningTrees
       }
       blackList.insert(blackList.end(), grayList.begin(), grayList.end());
       grayList.clear();
-   }
+   } while(!whiteList.empty());
    return decomposition;
 } 
  
-- 
2.43.0


From 1d7d4121b641d7e709e278a707da506538c74d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 086/224] fix: the fan decomposition of a model without
 variables missed its constants

---
 .../graphicalmodel/decomposition/graphicalmodeldecomposer.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx b/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx
index 75b4650..ca0b4ba 100644
--- a/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx
+++ b/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx
@@ -209,11 +209,11 @@ decomposeIntoKFans
    DecompositionType decomposition = GraphicalModelDecomposition(gm.numberOfVariables(),gm.numberOfFactors(),0);
     
    const size_t numberOfVariables   = gm.numberOfVariables();
-   const size_t numberOfSubproblems = (size_t)(ceil((double)(numberOfVariables)/(double)(k)));
+   const size_t numberOfSubproblems = numberOfVariables == 0 ? 1 : (size_t)(ceil((double)(numberOfVariables)/(double)(k)));
    std::vector<std::set<size_t> > innerFanVariables(numberOfSubproblems);
    size_t counter = 0;
    for(size_t subModelId=0; subModelId<numberOfSubproblems; ++subModelId) {
-      for(size_t i=0; i<k; ++i) {
+      for(size_t i=0; i<k && i<numberOfVariables; ++i) {
          innerFanVariables[subModelId].insert(counter);
          counter = (counter+1) % numberOfVariables;
       }
-- 
2.43.0


From a7d41aaf2d2561b5e4557e1d2db8b91a4493604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 087/224] fix: added empty subfactors had an uninitialised
 index

---
 .../decomposition/graphicalmodeldecomposition.hxx               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposition.hxx b/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposition.hxx
index 50942b9..a454b27 100644
--- a/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposition.hxx
+++ b/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposition.hxx
@@ -181,7 +181,7 @@ GraphicalModelDecomposition::addSubFactor
          OPENGM_ASSERT(subIndices[i] < numberOfSubVariables_[subModel]); 
       }
    }
-   emptySubFactorLists_[indices].push_back(SubFactor(subModel,subIndices));
+   emptySubFactorLists_[indices].push_back(SubFactor(subModel,numberOfSubFactors_[subModel],subIndices));
    return numberOfSubFactors_[subModel]++;
 } 
 
-- 
2.43.0


From f3b09f052ada837b0bc4ce0e2fbd5238a6e548f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 088/224] fix: dual decomposition without dual variables took
 the address of an element of an empty vector

---
 .../dualdecomposition/dualdecomposition_subgradient.hxx         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
index ae3247d..6e68aea 100644
--- a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
+++ b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
@@ -149,7 +149,7 @@ namespace opengm {
       else 
          mem_.resize(1,0.0);
       //std::cout << mem_.size() <<std::flush;
-      ValueType *data = &mem_[0];
+      ValueType *data = mem_.empty() ? 0 : &mem_[0];
       for(typename std::vector<DualBlockType>::iterator it=dualBlocks_.begin(); it!=dualBlocks_.end(); ++it){
          for(size_t i=0; i<(*it).duals_.size(); ++i){
             DualVariableType& dv = (*it).duals_[i];
-- 
2.43.0


From 4a049f0f6be94461f51548a60d5109bfa0887dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 089/224] fix: dual decomposition returned an empty labeling
 before inference

---
 .../dualdecomposition/dualdecomposition_subgradient.hxx         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
index 6e68aea..6c3e4bd 100644
--- a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
+++ b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
@@ -284,7 +284,7 @@ namespace opengm {
       }
       else{ 
          acUpperBound_.state(conf);
-         return NORMAL;
+         return conf.size() == gm_.numberOfVariables() ? NORMAL : UNKNOWN; // no labeling before the first iteration
       }
    }
 
-- 
2.43.0


From 5b929dac6a297e7db804e5f667a58e72ba4bdab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 090/224] fix: converted dual decomposition parameters lost the
 decomposition and the iteration limits

---
 .../dualdecomposition/dualdecomposition_subgradient.hxx        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
index 6c3e4bd..23d786c 100644
--- a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
+++ b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
@@ -66,7 +66,8 @@ namespace opengm {
 
             template<class P>
             Parameter(const P & p)
-            :   subPara_(p.subPara_),
+            :   DualDecompositionBaseParameter(p),
+                subPara_(p.subPara_),
                 useAdaptiveStepsize_(p.useAdaptiveStepsize_),
                 useProjectedAdaptiveStepsize_(p.useProjectedAdaptiveStepsize_){
 
-- 
2.43.0


From 3e65ad771a9819caf136713e442be62969024d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 091/224] fix: dual decomposition could not be rebound to
 another accumulation

---
 .../dualdecomposition/dualdecomposition_subgradient.hxx         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
index 23d786c..45dd8ef 100644
--- a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
+++ b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
@@ -51,7 +51,7 @@ namespace opengm {
 
         template<class _GM,class _ACC>
         struct RebindGmAndAcc{
-            typedef typename INF:: template RebindGm<_GM,_ACC>::type RebindedInf;
+            typedef typename INF:: template RebindGmAndAcc<_GM,_ACC>::type RebindedInf;
             typedef DualDecompositionSubGradient<_GM, RebindedInf, DUALBLOCK> type;
         };
 
-- 
2.43.0


From 63ba91a11da91d46a37cd65fe767deee4dcd404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 092/224] fix: dual decomposition made its dual variables
 undefined once all subproblems agreed

---
 .../dualdecomposition/dualdecomposition_subgradient.hxx         | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
index 45dd8ef..45e7097 100644
--- a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
+++ b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
@@ -225,6 +225,8 @@ namespace opengm {
 //            std::cout << stepsize << std::endl;
          }
      
+         if(!(stepsize < std::numeric_limits<double>::infinity()))
+            stepsize = 0; // all subproblems agree, the subgradient is zero
          if(typeid(AccumulationType) == typeid(opengm::Minimizer))
             stepsize *=1;
          else 
-- 
2.43.0


From 65108efb862a2e4aa9bf3972d952c35e74693f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 093/224] fix: dual variable blocks with float views did not
 compile

---
 .../opengm/inference/dualdecomposition/dddualvariableblock.hxx  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/dualdecomposition/dddualvariableblock.hxx b/include/opengm/inference/dualdecomposition/dddualvariableblock.hxx
index 7751607..087102e 100644
--- a/include/opengm/inference/dualdecomposition/dddualvariableblock.hxx
+++ b/include/opengm/inference/dualdecomposition/dddualvariableblock.hxx
@@ -90,7 +90,7 @@ namespace opengm {
       )
    {
       const size_t numDuals = subFactorList.size();
-      double tmp;
+      float tmp;
       duals_.resize(numDuals, marray::View<float,false>(shapeBegin,shapeEnd,&tmp));
       subFactorList_ = &subFactorList; 
    } 
-- 
2.43.0


From 84d0f51a7a4caca1f80653c0041bc39c68b4f825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 094/224] fix: graph cut with factors of three variables built
 a wrong network

---
 include/opengm/inference/graphcut.hxx | 39 ++++++---------------------
 1 file changed, 8 insertions(+), 31 deletions(-)

diff --git a/include/opengm/inference/graphcut.hxx b/include/opengm/inference/graphcut.hxx
index 314babd..3c16115 100644
--- a/include/opengm/inference/graphcut.hxx
+++ b/include/opengm/inference/graphcut.hxx
@@ -63,7 +63,6 @@ public:
 
 private:
    void addEdgeCapacity(const size_t, const size_t, const ValueType);
-   size_t tripleId(std::vector<size_t>&);
 
    const GraphicalModelType* gm_;
    ValueType tolerance_;
@@ -71,7 +70,7 @@ private:
    Parameter parameter_;
    size_t numVariables_;
    std::vector<size_t> numFacDim_;
-   std::list<std::vector<size_t> > tripleList;
+   size_t numTriples_; // number of third order factors added so far
    std::vector<bool> state_;
    std::vector<typename MINSTCUT::ValueType> sEdges_;
    std::vector<typename MINSTCUT::ValueType> tEdges_;
@@ -106,6 +105,7 @@ inline GraphCut<GM, ACC, MINSTCUT>::GraphCut
    OPENGM_ASSERT(numFacDim_.size() <= 3+1);
    parameter_ = para;
    numVariables_ = numVariables;
+   numTriples_ = 0;
    numFacDim_ = numFacDim;
    numFacDim_.resize(4);
    minStCut_ = new MinStCutType(2 + numVariables_ + numFacDim_[3], 2*numVariables_ + numFacDim_[2] + 3*numFacDim_[3]);
@@ -141,6 +141,7 @@ inline GraphCut<GM, ACC, MINSTCUT>::GraphCut
 
    parameter_ = para;
    numVariables_ = gm.numberOfVariables();
+   numTriples_ = 0;
    numFacDim_.resize(4, 0);
    for(size_t j = 0; j < gm.numberOfFactors(); ++j) {
       ++numFacDim_[gm[j].numberOfVariables()];
@@ -253,7 +254,7 @@ inline void GraphCut<GM, ACC, MINSTCUT>::addFactor
    else if(numberOfVariables == 3) {
       const size_t var0 = factor.variableIndex(0);
       const size_t var1 = factor.variableIndex(1);
-      const size_t var2 = factor.variableIndex(1);
+      const size_t var2 = factor.variableIndex(2);
       OPENGM_ASSERT(var0 < numVariables_);
       OPENGM_ASSERT(var1 < numVariables_);
       OPENGM_ASSERT(var2 < numVariables_);
@@ -267,11 +268,8 @@ inline void GraphCut<GM, ACC, MINSTCUT>::addFactor
       i[0] = 1; i[1] = 1; i[2] = 1; const ValueType H = factor(i);
 
       if(typeid(ACC) == typeid(opengm::Minimizer)) {
-         std::vector<size_t> triple(3);
-         triple[0] = var0;
-         triple[1] = var1;
-         triple[2] = var2;
-         size_t id = tripleId(triple);
+         OPENGM_ASSERT(numTriples_ < numFacDim_[3]);
+         const size_t id = numVariables_ + numTriples_++; // auxiliary node of this factor
          ValueType P = (A + D + F + G)-(B + C + E + H);
          if(P >= 0.0) {
             if(F-B>=0) addEdgeCapacity(0, var0+2, F - B);
@@ -279,7 +277,7 @@ inline void GraphCut<GM, ACC, MINSTCUT>::addFactor
             if(G-E>=0) addEdgeCapacity(0, var1+2, G - E);
             else       addEdgeCapacity(var1+2, 1, E - G);
             if(D-C>=0) addEdgeCapacity(0, var2+2, D - C);
-            else       addEdgeCapacity(var2+2, 0, C - D);
+            else       addEdgeCapacity(var2+2, 1, C - D);
 
             addEdgeCapacity(var1+2, var2+2, B + C - A - D);
             addEdgeCapacity(var2+2, var0+2, B + E - A - F);
@@ -288,7 +286,7 @@ inline void GraphCut<GM, ACC, MINSTCUT>::addFactor
             addEdgeCapacity(var0 + 2, id + 2, P);
             addEdgeCapacity(var1 + 2, id + 2, P);
             addEdgeCapacity(var2 + 2, id + 2, P);
-            addEdgeCapacity(id, 1, P);
+            addEdgeCapacity(id + 2, 1, P);
          }
          else {
             if(C-G>=0) addEdgeCapacity(var0+2, 1, C - G);
@@ -341,27 +339,6 @@ GraphCut<GM, ACC, MINSTCUT>::addEdgeCapacity
    }
 }
 
-template<class GM, class ACC, class MINSTCUT>
-inline size_t 
-GraphCut<GM, ACC, MINSTCUT>::tripleId
-(
-   std::vector<size_t>& triple
-) {
-   // search for triple in list
-   std::list<std::vector<size_t> >::iterator it;
-   size_t counter = numVariables_;
-   for(it = tripleList.begin(); it != tripleList.end(); it++) {
-      if(triple[0] == (*it)[0] && triple[1] == (*it)[1] && triple[2] == (*it)[2]) {
-         return counter;
-      }
-      numVariables_++;
-   }
-   // add triple to list
-   tripleList.push_back(triple);
-   OPENGM_ASSERT(counter - numVariables_ < numFacDim_[3]);
-   return counter;
-}
-   
 template<class GM, class ACC, class MINSTCUT>
 inline InferenceTermination 
 GraphCut<GM, ACC, MINSTCUT>::infer() { 
-- 
2.43.0


From ab00cf9b51d6a5394a56b4999db2e22f4c207b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 095/224] fix: running graph cut again doubled the capacities
 of the terminal edges

---
 include/opengm/inference/graphcut.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opengm/inference/graphcut.hxx b/include/opengm/inference/graphcut.hxx
index 3c16115..ba745d4 100644
--- a/include/opengm/inference/graphcut.hxx
+++ b/include/opengm/inference/graphcut.hxx
@@ -354,6 +354,8 @@ GraphCut<GM, ACC, MINSTCUT>::infer(VISITOR & visitor) {
    for(size_t i=0; i<sEdges_.size(); ++i) {
       minStCut_->addEdge(0, i+2, sEdges_[i]);
       minStCut_->addEdge(i+2, 1, tEdges_[i]);
+      sEdges_[i] = 0; // further runs do not add the same capacity again
+      tEdges_[i] = 0;
    }
    minStCut_->calculateCut(state_);
    inferenceDone_=true;
-- 
2.43.0


From d57b7536be3f8edc60a66dff92bf23e261379369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 096/224] fix: graph cut kept stale labels in the output before
 inference

---
 include/opengm/inference/graphcut.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/graphcut.hxx b/include/opengm/inference/graphcut.hxx
index ba745d4..09810c0 100644
--- a/include/opengm/inference/graphcut.hxx
+++ b/include/opengm/inference/graphcut.hxx
@@ -370,7 +370,7 @@ inline InferenceTermination GraphCut<GM, ACC, MINSTCUT>::arg
    const size_t n
 ) const {
    if(inferenceDone_==false){
-      arg.resize(numVariables_,0);
+      arg.assign(numVariables_,0);
       return UNKNOWN;
    }
    if(n > 1) {
-- 
2.43.0


From 8fa04fa5e640ed597b7d51c355872857d4e3cee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 097/224] fix: graph cut leaked its network when it refused a
 model

---
 include/opengm/inference/graphcut.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/graphcut.hxx b/include/opengm/inference/graphcut.hxx
index 09810c0..e4c16f7 100644
--- a/include/opengm/inference/graphcut.hxx
+++ b/include/opengm/inference/graphcut.hxx
@@ -137,6 +137,9 @@ inline GraphCut<GM, ACC, MINSTCUT>::GraphCut
       if(gm[j].numberOfVariables() > 3) {
          throw RuntimeError("This implementation of the graph cut optimizer supports only factors of order <= 3.");
       }
+      if(gm[j].numberOfVariables() == 3 && typeid(ACC) != typeid(opengm::Minimizer)) { // before anything is allocated
+         throw RuntimeError("This implementation of the graph cut optimizer supports 3rd order factors only in connection with opengm::Minimizer.");
+      }
    }
 
    parameter_ = para;
@@ -307,7 +310,7 @@ inline void GraphCut<GM, ACC, MINSTCUT>::addFactor
          };
       }
       else{
-         throw RuntimeError("This implementation of the graph cut optimizer support 3rd order factors only in connection with opengm::Maximizer.");
+         throw RuntimeError("This implementation of the graph cut optimizer supports 3rd order factors only in connection with opengm::Minimizer.");
       }
    }
    else {
-- 
2.43.0


From 5ec5647e8c264b449123002240f5690f181fc48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 098/224] fix: max-flow with push-relabel took over labels of a
 reused output vector

---
 include/opengm/inference/auxiliary/minstcutboost.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/auxiliary/minstcutboost.hxx b/include/opengm/inference/auxiliary/minstcutboost.hxx
index 3f6642a..2f7a954 100644
--- a/include/opengm/inference/auxiliary/minstcutboost.hxx
+++ b/include/opengm/inference/auxiliary/minstcutboost.hxx
@@ -116,7 +116,7 @@ namespace opengm {
             S, T
             );
          // find (s,t)-cut set
-         segmentation.resize(num_vertices(graph_));
+         segmentation.assign(num_vertices(graph_), false);
          for (size_t j = 2; j < num_vertices(graph_); ++j) {
             if (color[j] == boost::black_color || color[j] == boost::gray_color) {
                segmentation[j] = false;
@@ -134,7 +134,7 @@ namespace opengm {
             get(boost::vertex_index_t(), graph_)
             );
          // find (s,t)-cut set 
-         segmentation.resize(num_vertices(graph_), true);
+         segmentation.assign(num_vertices(graph_), true);
          segmentation[S] = false; // source
          segmentation[T] = false; // sink
          typedef typename boost::property_map<graph_type, boost::vertex_index_t>::type VertexIndexMap;
@@ -167,7 +167,7 @@ namespace opengm {
             &color[0], &pred[0]
             );
          // find (s,t)-cut set
-         segmentation.resize(num_vertices(graph_));
+         segmentation.assign(num_vertices(graph_), false);
          for (size_t j = 2; j < num_vertices(graph_); ++j) {
             if (color[j] == boost::black_color) {
                segmentation[j] = false;
-- 
2.43.0


From 5bcd8fa39e20fceb65ae48884891bcbe3a56a5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 099/224] fix: the cut of a default-constructed network
 accessed nodes that did not exist

---
 include/opengm/inference/auxiliary/minstcutboost.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/auxiliary/minstcutboost.hxx b/include/opengm/inference/auxiliary/minstcutboost.hxx
index 2f7a954..a566b69 100644
--- a/include/opengm/inference/auxiliary/minstcutboost.hxx
+++ b/include/opengm/inference/auxiliary/minstcutboost.hxx
@@ -76,6 +76,7 @@ namespace opengm {
    MinSTCutBoost<NType, VType, mfalg>::MinSTCutBoost() {
       numberOfNodes_ = 2;
       numberOfEdges_ = 0;
+      graph_ = graph_type(numberOfNodes_);
    }
 
    template<class NType, class VType, BoostMaxFlowAlgorithm mfalg>
-- 
2.43.0


From a9d1a0759ba08bb942c372d58567c662e14c66a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 100/224] fix: a copied max-flow network shared the reverse
 edges of the original

---
 .../inference/auxiliary/minstcutboost.hxx     | 40 +++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/include/opengm/inference/auxiliary/minstcutboost.hxx b/include/opengm/inference/auxiliary/minstcutboost.hxx
index a566b69..b6f390d 100644
--- a/include/opengm/inference/auxiliary/minstcutboost.hxx
+++ b/include/opengm/inference/auxiliary/minstcutboost.hxx
@@ -8,6 +8,7 @@
 #endif  
 
 #include <queue>
+#include <map>
 #include <cassert>
 
 #include <boost/graph/graph_traits.hpp>
@@ -56,10 +57,14 @@ namespace opengm {
       // Methods
       MinSTCutBoost();
       MinSTCutBoost(size_t numberOfNodes, size_t numberOfEdges);
+      MinSTCutBoost(const MinSTCutBoost&);
+      MinSTCutBoost& operator=(const MinSTCutBoost&);
       void addEdge(node_type, node_type, ValueType);
       void calculateCut(std::vector<bool>&);
 
    private:
+      void copyReverseEdges(const MinSTCutBoost&);
+
       // Members
       graph_type graph_;
       size_t numberOfNodes_;
@@ -87,6 +92,41 @@ namespace opengm {
       //std::cout << "#nodes : " << numberOfNodes_ << std::endl;
    }
 
+   template<class NType, class VType, BoostMaxFlowAlgorithm mfalg>
+   MinSTCutBoost<NType, VType, mfalg>::MinSTCutBoost(const MinSTCutBoost& other)
+   :  graph_(other.graph_), numberOfNodes_(other.numberOfNodes_), numberOfEdges_(other.numberOfEdges_) {
+      copyReverseEdges(other);
+   }
+
+   template<class NType, class VType, BoostMaxFlowAlgorithm mfalg>
+   MinSTCutBoost<NType, VType, mfalg>& MinSTCutBoost<NType, VType, mfalg>::operator=(const MinSTCutBoost& other) {
+      if(this != &other) {
+         graph_ = other.graph_;
+         numberOfNodes_ = other.numberOfNodes_;
+         numberOfEdges_ = other.numberOfEdges_;
+         copyReverseEdges(other);
+      }
+      return *this;
+   }
+
+   // the copied edges still refer to reverse edges of the other graph
+   template<class NType, class VType, BoostMaxFlowAlgorithm mfalg>
+   void MinSTCutBoost<NType, VType, mfalg>::copyReverseEdges(const MinSTCutBoost& other) {
+      typedef typename boost::graph_traits<graph_type>::edge_iterator EdgeIterator;
+      std::map<const Edge*, edge_descriptor> copyOfEdge;
+      EdgeIterator it, end, otherIt, otherEnd;
+      boost::tuples::tie(it, end) = edges(graph_);
+      boost::tuples::tie(otherIt, otherEnd) = edges(other.graph_);
+      for(; it != end; ++it, ++otherIt) {
+         copyOfEdge[&other.graph_[*otherIt]] = *it;
+      }
+      boost::tuples::tie(it, end) = edges(graph_);
+      boost::tuples::tie(otherIt, otherEnd) = edges(other.graph_);
+      for(; it != end; ++it, ++otherIt) {
+         graph_[*it].reverse = copyOfEdge[&other.graph_[other.graph_[*otherIt].reverse]];
+      }
+   }
+
    template<class NType, class VType, BoostMaxFlowAlgorithm mfalg>
    void MinSTCutBoost<NType, VType, mfalg>::addEdge(node_type n1, node_type n2, ValueType cost) {
       assert(n1 < numberOfNodes_);
-- 
2.43.0


From bcf4451905defa867375f7dde38fc3ef43b7dfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 101/224] fix: graph cut accepted multiplicative models and
 returned wrong labelings for them

---
 include/opengm/inference/graphcut.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/inference/graphcut.hxx b/include/opengm/inference/graphcut.hxx
index e4c16f7..cf85dad 100644
--- a/include/opengm/inference/graphcut.hxx
+++ b/include/opengm/inference/graphcut.hxx
@@ -128,6 +128,9 @@ inline GraphCut<GM, ACC, MINSTCUT>::GraphCut
    if(typeid(ACC) != typeid(opengm::Minimizer) && typeid(ACC) != typeid(opengm::Maximizer)) {
       throw RuntimeError("This implementation of the graph cut optimizer supports as accumulator only opengm::Minimizer and opengm::Maximizer.");
    }
+   if(typeid(OperatorType) != typeid(opengm::Adder)) {
+      throw RuntimeError("This implementation of the graph cut optimizer supports only additive models.");
+   }
    for(size_t j = 0; j < gm.numberOfVariables(); ++j) {
       if(gm.numberOfLabels(j) != 2) {
          throw RuntimeError("This implementation of the graph cut optimizer supports only binary variables.");
-- 
2.43.0


From 3d3bc5c6e60f32ed08e9d8973821a42724824984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 102/224] fix: roof duality added edges of negative capacity
 for factors with negative values

---
 include/opengm/inference/qpbo.hxx | 39 ++++++++++++++-----------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index b31571c..af88ee8 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -193,17 +193,26 @@ QPBO<GM,MIN_ST_CUT>::addEdgeCapacity(size_t v, size_t w, ValueType val)
 template<class GM,class MIN_ST_CUT>
 void
 QPBO<GM,MIN_ST_CUT>::addUnaryFactorType(const FactorType& factor)
+{
+   size_t c[]={0};
+   const ValueType value0 = factor(c);
+   c[0]=1;
+   const ValueType value1 = factor(c);
+   addUnaryFactorType(factor.variableIndex(0), value0, value1);
+}
+
+template<class GM,class MIN_ST_CUT>
+void
+QPBO<GM,MIN_ST_CUT>::addUnaryFactorType(size_t var, ValueType value0, ValueType value1)
 {
    // indices of literal nodes in graph_
-   size_t x_i  = factor.variableIndex(0);
+   size_t x_i  = var;
    size_t nx_i = neg(x_i);
 
    // conversion to normal form on-the-fly: c_[n]x_i are the new
    // values of the unary factor.
-   size_t c[]={0};
-   ValueType c_nx_i = factor(c);
-   c[0]=1;
-   ValueType c_x_i  = factor(c);
+   ValueType c_nx_i = value0;
+   ValueType c_x_i  = value1;
 
    // has to be zero
    ValueType delta = std::min(c_nx_i, c_x_i);
@@ -304,24 +313,10 @@ QPBO<GM,MIN_ST_CUT>::addPairwiseFactorType
       addEdgeCapacity(nx_j,  x_i, 0.5*c_x_i_x_j);
    }
 
-   // for every non-zero c_[n]x_{i,j} add two edges to the flow network
+   // add the changes to the unary factors
 
-   if (delta_c_nx_j != 0) {
-      addEdgeCapacity(x_j,    sink_, 0.5*delta_c_nx_j);
-      addEdgeCapacity(source_, nx_j, 0.5*delta_c_nx_j);
-   }
-   if (delta_c_x_j != 0) {
-      addEdgeCapacity(nx_j,   sink_, 0.5*delta_c_x_j);
-      addEdgeCapacity(source_,  x_j, 0.5*delta_c_x_j);
-   }
-   if (delta_c_nx_i != 0) {
-      addEdgeCapacity(x_i,    sink_, 0.5*delta_c_nx_i);
-      addEdgeCapacity(source_, nx_i, 0.5*delta_c_nx_i);
-   }
-   if (delta_c_x_i != 0) {
-      addEdgeCapacity(nx_i,   sink_, 0.5*delta_c_x_i);
-      addEdgeCapacity(source_,  x_i, 0.5*delta_c_x_i);
-   }
+   addUnaryFactorType(x_j, delta_c_nx_j, delta_c_x_j);
+   addUnaryFactorType(x_i, delta_c_nx_i, delta_c_x_i);
 }
 
 } // namespace opengm
-- 
2.43.0


From 987de132d7f5666b2f37adb97754765ca6e87abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 103/224] fix: roof duality halved integral capacities

---
 include/opengm/inference/qpbo.hxx | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index af88ee8..7129241 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -220,11 +220,11 @@ QPBO<GM,MIN_ST_CUT>::addUnaryFactorType(size_t var, ValueType value0, ValueType
    c_x_i      -= delta;
    constTerm_ += delta;
 
-   addEdgeCapacity(x_i,    sink_, 0.5*c_nx_i);
-   addEdgeCapacity(source_, nx_i, 0.5*c_nx_i);
+   addEdgeCapacity(x_i,    sink_, c_nx_i);
+   addEdgeCapacity(source_, nx_i, c_nx_i);
 
-   addEdgeCapacity(nx_i,   sink_, 0.5*c_x_i);
-   addEdgeCapacity(source_,  x_i, 0.5*c_x_i);
+   addEdgeCapacity(nx_i,   sink_, c_x_i);
+   addEdgeCapacity(source_,  x_i, c_x_i);
 }
 
 template<class GM,class MIN_ST_CUT>
@@ -295,22 +295,23 @@ QPBO<GM,MIN_ST_CUT>::addPairwiseFactorType
    }
 
    // for every non-zero c_[n]x_i_[n]x_j add two edges to the flow network
+   // (with twice the usual capacity, so that integral values stay integral)
 
    if (c_nx_i_nx_j != 0) {
-      addEdgeCapacity(x_i,  nx_j, 0.5*c_nx_i_nx_j);
-      addEdgeCapacity(x_j,  nx_i, 0.5*c_nx_i_nx_j);
+      addEdgeCapacity(x_i,  nx_j, c_nx_i_nx_j);
+      addEdgeCapacity(x_j,  nx_i, c_nx_i_nx_j);
    }
    if (c_nx_i_x_j != 0) {
-      addEdgeCapacity(x_i,   x_j, 0.5*c_nx_i_x_j);
-      addEdgeCapacity(nx_j, nx_i, 0.5*c_nx_i_x_j);
+      addEdgeCapacity(x_i,   x_j, c_nx_i_x_j);
+      addEdgeCapacity(nx_j, nx_i, c_nx_i_x_j);
    }
    if (c_x_i_nx_j != 0) {
-      addEdgeCapacity(nx_i, nx_j, 0.5*c_x_i_nx_j);
-      addEdgeCapacity(x_j,   x_i, 0.5*c_x_i_nx_j);
+      addEdgeCapacity(nx_i, nx_j, c_x_i_nx_j);
+      addEdgeCapacity(x_j,   x_i, c_x_i_nx_j);
    }
    if (c_x_i_x_j != 0) {
-      addEdgeCapacity(nx_i,  x_j, 0.5*c_x_i_x_j);
-      addEdgeCapacity(nx_j,  x_i, 0.5*c_x_i_x_j);
+      addEdgeCapacity(nx_i,  x_j, c_x_i_x_j);
+      addEdgeCapacity(nx_j,  x_i, c_x_i_x_j);
    }
 
    // add the changes to the unary factors
-- 
2.43.0


From 2329e1086e9031d10f4efc989192c5cf62c1ab1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 104/224] fix: roof duality reported an infinite value because
 its labels were not an override

---
 include/opengm/inference/qpbo.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index 7129241..eec228d 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -49,7 +49,7 @@ public:
    InferenceTermination infer();
    template<class VISITOR>
       InferenceTermination infer(VISITOR &);
-   InferenceTermination arg(std::vector<LabelType>&, const size_t& = 1) const;
+   InferenceTermination arg(std::vector<LabelType>&, const size_t = 1) const;
    double partialOptimality(std::vector<bool>&) const;
 
 private:
@@ -144,7 +144,7 @@ inline InferenceTermination
 QPBO<GM,MIN_ST_CUT>::arg
 (
    std::vector<LabelType>& arg,
-   const size_t& n
+   const size_t n
    ) const
 {
    if(n > 1) {
-- 
2.43.0


From ec2eed58a75bd1322f6be5b320bb9799f322329c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 105/224] fix: partial optimality of roof duality did not
 compile

---
 include/opengm/inference/qpbo.hxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index eec228d..7f52fd3 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -172,7 +172,10 @@ QPBO<GM,MIN_ST_CUT>::partialOptimality
    ) const
 {
    double opt = 0;
-   optVec.resize(numVars_);
+   optVec.assign(numVars_, false);
+   if(stateBool_.empty()) { // before inference
+      return opt;
+   }
    for(size_t j=0; j<optVec.size(); ++j)
       if (stateBool_[j+2] != stateBool_[neg(j)+2]) {
          optVec[j] = true;
@@ -180,7 +183,7 @@ QPBO<GM,MIN_ST_CUT>::partialOptimality
       } else
          optVec[j] = false;
 
-   return opt/gm_.numerOfVariables();
+   return numVars_ == 0 ? 1.0 : opt/numVars_;
 }
 
 template<class GM,class MIN_ST_CUT>
-- 
2.43.0


From d56fa2cf130199a97a47a80056c39a859eaf67ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 106/224] fix: reading the labels of roof duality before
 inference accessed an empty vector

---
 include/opengm/inference/qpbo.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index 7f52fd3..dbf5b50 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -151,7 +151,10 @@ QPBO<GM,MIN_ST_CUT>::arg
       return UNKNOWN;
    }
    else {
-      arg.resize(numVars_);
+      arg.assign(numVars_, 0);
+      if(stateBool_.empty()) { // before inference
+         return UNKNOWN;
+      }
       for(size_t j=0; j<arg.size(); ++j) {
          if (stateBool_[j+2] == true && stateBool_[neg(j)+2] == false)
             arg[j] = 1;
-- 
2.43.0


From e8183857e30ca2e338dfe843e756c9607fa723d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 107/224] fix: roof duality accepted models with more than two
 labels and multiplicative models

---
 include/opengm/inference/qpbo.hxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index dbf5b50..7aa11f1 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -2,6 +2,8 @@
 #ifndef OPENGM_QPBO_HXX
 #define OPENGM_QPBO_HXX
 
+#include <typeinfo>
+
 #include "opengm/graphicalmodel/graphicalmodel_factor.hxx"
 #include "opengm/graphicalmodel/graphicalmodel.hxx"
 #include "opengm/operations/adder.hxx"
@@ -83,6 +85,14 @@ QPBO<GM,MIN_ST_CUT>::QPBO
    numVars_(gm_.numberOfVariables()),
    minStCut_(2*gm_.numberOfVariables()+2, 6*gm_.numberOfVariables()) /// now many edges?
 {
+   if(typeid(OperatorType) != typeid(opengm::Adder)) {
+      throw RuntimeError("This implementation of the QPBO optimizer supports only additive models.");
+   }
+   for(size_t j=0; j<gm_.numberOfVariables(); ++j) {
+      if(gm_.numberOfLabels(j) != 2) {
+         throw RuntimeError("This implementation of the QPBO optimizer supports only binary variables.");
+      }
+   }
    constTerm_ = 0;
    source_ = 2*numVars_;
    sink_   = 2*numVars_ + 1;
-- 
2.43.0


From 9201868a69503057c69e7604fde9c5b461059f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 108/224] fix: the 2-SAT solver hid the inference interface, so
 that verbose and timing visitors did not compile

---
 include/opengm/inference/sat.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/sat.hxx b/include/opengm/inference/sat.hxx
index 8515aaa..e392a48 100644
--- a/include/opengm/inference/sat.hxx
+++ b/include/opengm/inference/sat.hxx
@@ -21,7 +21,7 @@ namespace opengm {
    ///
    /// \ingroup inference
    template<class GM>
-   class SAT : Inference<GM, opengm::Or> {
+   class SAT : public Inference<GM, opengm::Or> {
    public:
       typedef opengm::Or AccumulationType;
       typedef GM GraphicalModelType;
-- 
2.43.0


From 77d31582684af90d5f88f5e4c1b229ffd6a37165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 109/224] fix: the 2-SAT solver accepted models outside its
 domain

---
 include/opengm/inference/sat.hxx | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/opengm/inference/sat.hxx b/include/opengm/inference/sat.hxx
index e392a48..4c5064d 100644
--- a/include/opengm/inference/sat.hxx
+++ b/include/opengm/inference/sat.hxx
@@ -69,11 +69,15 @@ namespace opengm {
    )
    :  gm_(gm)
    {
-      if(!NO_DEBUG) {
-         OPENGM_ASSERT(gm_.factorOrder() <= 2);
-         OPENGM_ASSERT(typeid(OperatorType) == typeid(opengm::And));
-         for(size_t i=0; i<gm_.numberOfVariables();++i) {
-            OPENGM_ASSERT(gm_.numberOfLabels(i) == 2);
+      if(gm_.factorOrder() > 2) {
+         throw RuntimeError("This implementation of the 2-SAT solver supports only factors of order 2.");
+      }
+      if(typeid(OperatorType) != typeid(opengm::And)) {
+         throw RuntimeError("This implementation of the 2-SAT solver supports only conjunctions.");
+      }
+      for(size_t i=0; i<gm_.numberOfVariables();++i) {
+         if(gm_.numberOfLabels(i) != 2) {
+            throw RuntimeError("This implementation of the 2-SAT solver supports only binary variables.");
          }
       }
    }
-- 
2.43.0


From 577e4f5a367f88f715382acc691231bfde315805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 110/224] fix: reading the value of the 2-SAT solver before
 inference accessed an empty vector

---
 include/opengm/inference/sat.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/inference/sat.hxx b/include/opengm/inference/sat.hxx
index 4c5064d..b855562 100644
--- a/include/opengm/inference/sat.hxx
+++ b/include/opengm/inference/sat.hxx
@@ -148,6 +148,9 @@ namespace opengm {
    inline typename GM::ValueType
    SAT<GM>::value() const
    {
+      if(component_.size() != 2*gm_.numberOfVariables()) { // before inference
+         return AccumulationType::template neutral<ValueType>();
+      }
       bool satisfied = true;
       for(IndexType i=0; i<gm_.numberOfVariables(); i++) {
          if(component_[i] == component_[i+gm_.numberOfVariables()]) {
-- 
2.43.0


From 4d20442bd1f19f6675177dbf68ae29768ad1c66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 111/224] fix: a move in which some variable could not change
 corrupted the state of others

---
 include/opengm/inference/movemaker.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/movemaker.hxx b/include/opengm/inference/movemaker.hxx
index 468115c..5a8740e 100644
--- a/include/opengm/inference/movemaker.hxx
+++ b/include/opengm/inference/movemaker.hxx
@@ -497,7 +497,7 @@ Movemaker<GM>::moveOptimallyWithAllLabelsChanging
       if(gm_.space().numberOfLabels(variableIndices[j]) == 1) {
          // restore stateBuffer_
          for(size_t k=0; k<j; ++k) {
-            stateBuffer_[k] = state_[k];
+            stateBuffer_[variableIndices[k]] = state_[variableIndices[k]];
          }
          return energy_;
       }
-- 
2.43.0


From 7088372c3a343ff8f73092b40d4b6ec3724f75fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 112/224] fix: moves away from labelings of infinite or zero
 value made the value undefined

---
 include/opengm/inference/movemaker.hxx | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/opengm/inference/movemaker.hxx b/include/opengm/inference/movemaker.hxx
index 5a8740e..8f338fc 100644
--- a/include/opengm/inference/movemaker.hxx
+++ b/include/opengm/inference/movemaker.hxx
@@ -76,6 +76,8 @@ private:
    void addHigherOrderInsideFactor(const IndexType, const opengm::BufferVector<IndexType>&, SubGmType &, std::set<IndexType> &)const;
    template<class FactorIndexIterator>
       ValueType evaluateFactors(FactorIndexIterator, FactorIndexIterator, const std::vector<LabelType>&) const;
+   static bool isFinite(const ValueType value)
+      { return value - value == static_cast<ValueType>(0); }
 
    const GraphicalModelType& gm_;
    std::vector<std::set<size_t> > factorsOfVariable_;
@@ -327,6 +329,7 @@ Movemaker<GM>::valueAfterMove
       }
       // \todo consider buffering the values of ALL factors at the current state!
       destinationValue = energy_;
+      bool partialUpdate = true;
       for (std::set<size_t>::const_iterator it = factorsToRecompute.begin(); it != factorsToRecompute.end(); ++it) {
          OPENGM_ASSERT(*it < gm_.numberOfFactors());
          // determine current and destination state of the current factor
@@ -338,8 +341,13 @@ Movemaker<GM>::valueAfterMove
             destinationFactorState[j] = stateBuffer_[gm_[*it].variableIndex(j)];
             OPENGM_ASSERT(destinationFactorState[j] < gm_[*it].numberOfLabels(j));
          }
+         const ValueType currentFactorValue = gm_[*it](currentFactorState.begin());
+         partialUpdate = partialUpdate && isFinite(currentFactorValue);
          OperatorType::op(destinationValue, gm_[*it](destinationFactorState.begin()), destinationValue);
-         OperatorType::iop(destinationValue, gm_[*it](currentFactorState.begin()), destinationValue);
+         OperatorType::iop(destinationValue, currentFactorValue, destinationValue);
+      }
+      if(!partialUpdate) { // infinite terms cannot be removed from a sum
+         destinationValue = gm_.evaluate(stateBuffer_);
       }
       // restore stateBuffer_
       for (IndexIterator it = begin; it != end; ++it) {
@@ -442,10 +450,9 @@ overflow:
          stateBuffer_[vi] = bestState[j];
       }
       // update energy
-      if(meta::And<
-      meta::Compare<ACCUMULATOR, opengm::Maximizer>::value,
-      meta::Compare<OperatorType, opengm::Multiplier>::value
-      >::value && energy_ == static_cast<ValueType> (0)) {
+      // (the partial update is neither possible for factors equal to zero in
+      // a product nor for infinite terms of a sum)
+      if(meta::Compare<OperatorType, opengm::Multiplier>::value || !isFinite(initialEnergy)) {
          OPENGM_ASSERT(state_.size() == gm_.numberOfVariables());
          energy_ = gm_.evaluate(state_.begin());
       }
@@ -579,10 +586,10 @@ overflow2:
          stateBuffer_[vi] = bestState[j];
       }
       // update energy
-      if(meta::And<
-      meta::Compare<ACCUMULATOR, opengm::Maximizer>::value,
-      meta::Compare<OperatorType, opengm::Multiplier>::value
-      >::value && energy_ == static_cast<ValueType> (0)) {
+      // (the partial update is neither possible for factors equal to zero in
+      // a product nor for infinite terms of a sum)
+      if(meta::Compare<OperatorType, opengm::Multiplier>::value || !isFinite(initialEnergy)) {
+         OPENGM_ASSERT(state_.size() == gm_.numberOfVariables());
          energy_ = gm_.evaluate(state_.begin());
       }
       else {
-- 
2.43.0


From fd59523d12d16b088e0f5e304609ecb669c6034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 113/224] fix: an optimal move of no variables did not
 terminate

---
 include/opengm/inference/movemaker.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/opengm/inference/movemaker.hxx b/include/opengm/inference/movemaker.hxx
index 8f338fc..1bcc2f1 100644
--- a/include/opengm/inference/movemaker.hxx
+++ b/include/opengm/inference/movemaker.hxx
@@ -401,6 +401,9 @@ Movemaker<GM>::moveOptimally
 
    // find an optimal move and the corresponding energy of factors to recompute
    size_t numberOfVariables = std::distance(variableIndices, variableIndicesEnd);
+   if(numberOfVariables == 0) {
+      return energy_;
+   }
    ValueType initialEnergy = evaluateFactors(
       factorsToRecompute.begin(),
       factorsToRecompute.end(),
@@ -493,6 +496,9 @@ Movemaker<GM>::moveOptimallyWithAllLabelsChanging
 
    // find an optimal move and the corresponding energy of factors to recompute
    size_t numberOfVariables = std::distance(variableIndices, variableIndicesEnd);
+   if(numberOfVariables == 0) {
+      return energy_;
+   }
    ValueType initialEnergy = evaluateFactors(
       factorsToRecompute.begin(),
       factorsToRecompute.end(),
-- 
2.43.0


From 46463417d113d0fe05df4c758e4d8226164dbbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 114/224] fix: ICM parameters could not be taken over from
 another ICM

---
 include/opengm/inference/icm.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/icm.hxx b/include/opengm/inference/icm.hxx
index 7b70ac9..0667ebd 100644
--- a/include/opengm/inference/icm.hxx
+++ b/include/opengm/inference/icm.hxx
@@ -68,7 +68,7 @@ public:
        Parameter(const OP & otherParameter)
           {
              moveType_ = otherParameter.moveType_== 0? SINGLE_VARIABLE : FACTOR; 
-             startPoint_(otherParameter.startPoint_); 
+             startPoint_.assign(otherParameter.startPoint_.begin(), otherParameter.startPoint_.end());
           }
 
         MoveType moveType_;
-- 
2.43.0


From 43bda2fcd4659580595a48211ed94565422f888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 115/224] fix: ICM reported factor moves when it was run again

---
 include/opengm/inference/icm.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/icm.hxx b/include/opengm/inference/icm.hxx
index 0667ebd..30c2f22 100644
--- a/include/opengm/inference/icm.hxx
+++ b/include/opengm/inference/icm.hxx
@@ -188,6 +188,7 @@ InferenceTermination ICM<GM,ACC>::infer
 )
 {
    bool exitInf=false;
+   currentMoveType_=SINGLE_VARIABLE;
    visitor.begin(*this);
    if(param_.moveType_==SINGLE_VARIABLE ||param_.moveType_==FACTOR) {
       bool updates = true;
-- 
2.43.0


From 2d60780ad5130178ffea7d54c35f482e06623de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 116/224] fix: the lazy flipper failed when it was run again or
 reset

---
 include/opengm/inference/lazyflipper.hxx | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/lazyflipper.hxx b/include/opengm/inference/lazyflipper.hxx
index 53689ab..502afcc 100644
--- a/include/opengm/inference/lazyflipper.hxx
+++ b/include/opengm/inference/lazyflipper.hxx
@@ -199,6 +199,7 @@ private:
    template<class VisitorType>
       InferenceTermination inferMultiLabel(VisitorType&); 
    InferenceTermination inferMultiLabel(); 
+   void clearSubgraphs();
 
    SubgraphForestNode appendVariableToPath(SubgraphForestNode);
    SubgraphForestNode generateFirstPathOfLength(const size_t);
@@ -217,6 +218,7 @@ private:
    Tagging<bool> activation_[2];
    SubgraphForest subgraphForest_;
    size_t maxSubgraphSize_;
+   std::vector<LabelType> startingPoint_;
    Tribool useMultilabelInference_;
 };
 
@@ -649,6 +651,7 @@ LazyFlipper<GM, ACC>::LazyFlipper(
    movemaker_(Movemaker<GM>(gm)),
    subgraphForest_(SubgraphForest()),
    maxSubgraphSize_(param.maxSubgraphSize_),
+   startingPoint_(param.startingPoint_),
    useMultilabelInference_(param.inferMultilabel_)
 {
    if(gm_.numberOfVariables() == 0) {
@@ -675,7 +678,24 @@ LazyFlipper<GM, ACC>::LazyFlipper(
 template<class GM, class ACC>
 inline void
 LazyFlipper<GM, ACC>::reset()
-{}
+{
+   this->clearSubgraphs();
+   if(startingPoint_.size() == gm_.numberOfVariables()) {
+      movemaker_.initialize(startingPoint_.begin());
+   }
+   else {
+      movemaker_.reset();
+   }
+}
+
+template<class GM, class ACC>
+inline void
+LazyFlipper<GM, ACC>::clearSubgraphs()
+{
+   subgraphForest_ = SubgraphForest();
+   activation_[0].untag();
+   activation_[1].untag();
+}
 
 ///// \todo next version: get rid of redundancy with other constructor
 //template<class GM, class ACC>
@@ -763,6 +783,7 @@ LazyFlipper<GM, ACC>::infer(
    VisitorType& visitor
 )
 {
+   this->clearSubgraphs();
    bool multiLabel;
    if(this->useMultilabelInference_ == true) {
       multiLabel = true;
-- 
2.43.0


From 9808e6e648953b51ddd7f0adf02a3b1978147804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 117/224] fix: inference and flipping accessed an empty vector
 when asked for labels before inference

---
 include/opengm/inference/infandflip.hxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/infandflip.hxx b/include/opengm/inference/infandflip.hxx
index 09820c6..ed167ba 100644
--- a/include/opengm/inference/infandflip.hxx
+++ b/include/opengm/inference/infandflip.hxx
@@ -70,7 +70,7 @@ public:
       bool warmStartableInf_;
    };
 
-   InfAndFlip(const GraphicalModelType&, typename InfAndFlip::Parameter param);
+   InfAndFlip(const GraphicalModelType&, typename InfAndFlip::Parameter param = Parameter());
    std::string name() const;
    const GraphicalModelType& graphicalModel() const;
    ValueType value() const;
@@ -84,6 +84,8 @@ public:
       sp_.resize(gm_.numberOfVariables());
       sp_.assign(sp,sp+gm_.numberOfVariables());
       spValue_=gm_.evaluate(sp_.begin());
+      state_=sp_;
+      value_=spValue_;
    }
 private:
    const GraphicalModelType& gm_;
@@ -106,12 +108,13 @@ InfAndFlip<GM, ACC, INF>::InfAndFlip(
    const GraphicalModelType& gm,
    typename InfAndFlip<GM, ACC, INF>::Parameter param
    )
-   :  gm_(gm), para_(param)
+   :  gm_(gm), para_(param), state_(gm.numberOfVariables(), 0)
 {
    if(gm_.numberOfVariables() == 0) {
       throw RuntimeError("The graphical model has no variables.");
    }
-   value_ = ACC::template neutral<ValueType>();
+   value_ = gm_.evaluate(state_.begin());
+   spValue_ = value_;
    bound_ = ACC::template ineutral<ValueType>();
 }
 
-- 
2.43.0


From 477afd08c0a7810e49e6243d2f4452d32bb8669a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 118/224] fix: inference and flipping returned labelings worse
 than the starting point

---
 include/opengm/inference/infandflip.hxx | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/opengm/inference/infandflip.hxx b/include/opengm/inference/infandflip.hxx
index ed167ba..6517831 100644
--- a/include/opengm/inference/infandflip.hxx
+++ b/include/opengm/inference/infandflip.hxx
@@ -154,10 +154,18 @@ InfAndFlip<GM, ACC, INF>::infer(
    if(para_.warmStartableInf_ && !(sp_.size()==0))
       inf.setStartingPoint(sp_.begin());
    inf.infer();
-   inf.arg(state_);
+   std::vector<LabelType> infState;
+   inf.arg(infState);
+   if(infState.size() == gm_.numberOfVariables()) {
+      state_ = infState;
+   }
    value_ = gm_.evaluate(state_); 
    //value_=inf.value();
    bound_=inf.bound();
+   if(sp_.size()==gm_.numberOfVariables() && ACC::bop(spValue_,value_)) {
+      state_ = sp_;
+      value_ = spValue_;
+   }
    if( visitor(*this) != visitors::VisitorReturnFlag::ContinueInf ){
       visitor.end(*this);
       return NORMAL;
@@ -165,14 +173,7 @@ InfAndFlip<GM, ACC, INF>::infer(
 
    if(para_.maxSubgraphSize_>0){
       lf.setMaxSubgraphSize(para_.maxSubgraphSize_);
-      if(sp_.size()!=gm_.numberOfVariables())
-         lf.setStartingPoint(state_.begin());
-      else{
-         if(ACC::bop(value_,spValue_))
-            lf.setStartingPoint(state_.begin());
-         else
-            lf.setStartingPoint(sp_.begin());
-      }
+      lf.setStartingPoint(state_.begin());
       std::cout << "start flipping ..."<<std::endl;
       lf.infer();
       lf.arg(state_);
-- 
2.43.0


From 9c4eba4639f5614bb128c7a84b78ed6ec8ebb81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 119/224] fix: greedy inference failed for disconnected models
 and models without variables

---
 include/opengm/inference/greedygremlin.hxx | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/opengm/inference/greedygremlin.hxx b/include/opengm/inference/greedygremlin.hxx
index a282bcd..e3c2778 100644
--- a/include/opengm/inference/greedygremlin.hxx
+++ b/include/opengm/inference/greedygremlin.hxx
@@ -128,14 +128,19 @@ namespace opengm {
    {
       std::vector<bool>       nodeColor(gm_.numberOfVariables(),false);
       std::vector<IndexType>  waitingList(gm_.numberOfVariables());
-      waitingList[0] = 0;
-      nodeColor[0]   = true;
       IndexType waitingListFirst = 0;
-      IndexType waitingListLast  = 0;
+      IndexType waitingListEnd   = 0;
+      IndexType nextVariable     = 0;
       visitor.begin(*this);    
       const ValueType neutral = GM::OperatorType::template neutral<ValueType>();
       while(waitingListFirst<waitingList.size()){
-         OPENGM_ASSERT(waitingListFirst<=waitingListLast);
+         if(waitingListFirst==waitingListEnd){
+            //start with the next connected component
+            while(nodeColor[nextVariable])
+               ++nextVariable;
+            nodeColor[nextVariable] = true;
+            waitingList[waitingListEnd++] = nextVariable;
+         }
          IndexType var = waitingList[waitingListFirst++];
          std::vector<ValueType> vals(gm_.numberOfLabels(var),neutral);
          //for all neigboured factors
@@ -174,7 +179,7 @@ namespace opengm {
             for(typename GM::ConstVariableIterator vit=gm_.variablesOfFactorBegin(*fit); vit!=gm_.variablesOfFactorEnd(*fit); ++vit){
                if(nodeColor[*vit]==false){
                   nodeColor[*vit]=true;
-                  waitingList[++waitingListLast] = *vit;
+                  waitingList[waitingListEnd++] = *vit;
                }
             }
          }
-- 
2.43.0


From f46f846ab0861fd6f1e79fb11d976cd40a859a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 120/224] fix: greedy inference took variables into account
 that had not been fixed yet

---
 include/opengm/inference/greedygremlin.hxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/greedygremlin.hxx b/include/opengm/inference/greedygremlin.hxx
index e3c2778..9eaee0a 100644
--- a/include/opengm/inference/greedygremlin.hxx
+++ b/include/opengm/inference/greedygremlin.hxx
@@ -127,6 +127,7 @@ namespace opengm {
    InferenceTermination GreedyGremlin<GM,ACC>::infer(VisitorType& visitor)
    {
       std::vector<bool>       nodeColor(gm_.numberOfVariables(),false);
+      std::vector<bool>       isFixed(gm_.numberOfVariables(),false);
       std::vector<IndexType>  waitingList(gm_.numberOfVariables());
       IndexType waitingListFirst = 0;
       IndexType waitingListEnd   = 0;
@@ -147,14 +148,14 @@ namespace opengm {
          for(typename GM::ConstFactorIterator fit=gm_.factorsOfVariableBegin(var); fit!=gm_.factorsOfVariableEnd(var); ++fit){
             bool useIt = true;
             for(typename GM::ConstVariableIterator vit=gm_.variablesOfFactorBegin(*fit); vit!=gm_.variablesOfFactorEnd(*fit); ++vit){
-               if(nodeColor[*vit]==false){
+               if(isFixed[*vit]==false && *vit!=var){
                   useIt = false;
                   break;
                }
             }
             if(useIt){
                std::vector<LabelType> l(gm_[*fit].numberOfVariables());
-               size_t p;
+               size_t p=0;
                for(size_t i=0; i<l.size();++i){
                   if(gm_[*fit].variableIndex(i)==var)
                      p=i;
@@ -169,10 +170,12 @@ namespace opengm {
          }
 
          //find best and fix
+         conf_[var]=0;
          for(size_t i=0; i<vals.size();++i){
             if(ACC::bop(vals[i],vals[conf_[var]]))
                conf_[var]=i;                    
          }
+         isFixed[var]=true;
 
          //add white neighbours to waitingslist
          for(typename GM::ConstFactorIterator fit=gm_.factorsOfVariableBegin(var); fit!=gm_.factorsOfVariableEnd(var); ++fit){
-- 
2.43.0


From 1425b4336db815bab1405d51d5b3343fe6d26907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 121/224] fix: ICM stopped early when it started from a
 labeling of infinite or zero value

---
 include/opengm/inference/icm.hxx | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/opengm/inference/icm.hxx b/include/opengm/inference/icm.hxx
index 30c2f22..26a3989 100644
--- a/include/opengm/inference/icm.hxx
+++ b/include/opengm/inference/icm.hxx
@@ -2,6 +2,7 @@
 #ifndef OPENGM_ICM_HXX
 #define OPENGM_ICM_HXX
 
+#include <algorithm>
 #include <vector>
 #include <string>
 #include <iostream>
@@ -203,7 +204,12 @@ InferenceTermination ICM<GM,ACC>::infer
                for(s=0; s<gm_.numberOfLabels(v); ++s) {
                   if(s != movemaker_.state(v)) {
                      if(AccumulationType::bop(movemaker_.valueAfterMove(&v, &v+1, &s), movemaker_.value())) {
+                        const ValueType oldValue = movemaker_.value();
                         movemaker_.move(&v, &v+1, &s);
+                        if(MovemakerType::isAbsorbing(oldValue)) {
+                           // moves of all variables have been hidden
+                           std::fill(isLocalOptimal.begin(), isLocalOptimal.end(), false);
+                        }
                         for(n=0;n<variableAdjacencyList[v].size();++n) {
                            isLocalOptimal[variableAdjacencyList[v][n]]=false;
                         }
@@ -232,15 +238,18 @@ InferenceTermination ICM<GM,ACC>::infer
       while(updates && exitInf==false) {
          updates = false;
          for(f=0; f<gm_.numberOfFactors() && exitInf==false; ++f) {
-            if(isLocalOptimal[f]==false && gm_[f].numberOfVariables()>1) {
+            if(isLocalOptimal[f]==false && gm_[f].numberOfVariables()>0) {
                stateBuffer.clear();
                stateBuffer.resize(gm_[f].numberOfVariables());
                for(v=0;v<gm_[f].numberOfVariables();++v) {
                   stateBuffer[v]=movemaker_.state(gm_[f].variableIndex(v));
                }
-               ValueType oldValue=movemaker_.value();
-               ValueType newValue=movemaker_. template moveOptimally<ACC>(gm_[f].variableIndicesBegin(),gm_[f].variableIndicesEnd());   
-               if(ACC::bop(newValue,oldValue)) {
+               movemaker_. template moveOptimally<ACC>(gm_[f].variableIndicesBegin(),gm_[f].variableIndicesEnd());   
+               bool moved = false;
+               for(v=0;v<gm_[f].numberOfVariables();++v) {
+                  moved = moved || stateBuffer[v]!=movemaker_.state(gm_[f].variableIndex(v));
+               }
+               if(moved) {
                   updates = true ;
                   if( visitor(*this) != visitors::VisitorReturnFlag::ContinueInf ){
                      exitInf=true;
-- 
2.43.0


From 9137b16cc3a07fd4719a72bbc4f7074cca783424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 122/224] fix: the lazy flipper stopped early when it started
 from a labeling of infinite or zero value

---
 include/opengm/inference/lazyflipper.hxx | 33 +++++++++++++++++++-----
 include/opengm/inference/movemaker.hxx   | 13 ++++++++++
 2 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/include/opengm/inference/lazyflipper.hxx b/include/opengm/inference/lazyflipper.hxx
index 502afcc..202cb80 100644
--- a/include/opengm/inference/lazyflipper.hxx
+++ b/include/opengm/inference/lazyflipper.hxx
@@ -205,6 +205,7 @@ private:
    SubgraphForestNode generateFirstPathOfLength(const size_t);
    SubgraphForestNode generateNextPathOfSameLength(SubgraphForestNode);
    void activateInfluencedVariables(SubgraphForestNode, const size_t);
+   void activateAllVariables(const size_t);
    void deactivateAllVariables(const size_t);
    SubgraphForestNode firstActivePath(const size_t);
    SubgraphForestNode nextActivePath(SubgraphForestNode, const size_t);
@@ -843,8 +844,12 @@ LazyFlipper<GM, ACC>::inferBinaryLabel(
       else {
          while(p != NONODE) {
             if(AccumulationType::bop(energyAfterFlip(p), movemaker_.value())) {
+               const ValueType oldValue = movemaker_.value();
                flip(p);
                activateInfluencedVariables(p, 0);
+               if(Movemaker<GraphicalModelType>::isAbsorbing(oldValue)) {
+                  activateAllVariables(0);
+               }
                //visitor(*this, movemaker_.value(), bound, length, subgraphForest_.size());
                if(visitor(*this)!=0){
                   continueInf=false;
@@ -863,8 +868,12 @@ LazyFlipper<GM, ACC>::inferBinaryLabel(
             else {
                while(p2 != NONODE) {
                   if(AccumulationType::bop(energyAfterFlip(p2), movemaker_.value())) {
+                     const ValueType oldValue = movemaker_.value();
                      flip(p2);
                      activateInfluencedVariables(p2, nextActivationList);
+                     if(Movemaker<GraphicalModelType>::isAbsorbing(oldValue)) {
+                        activateAllVariables(nextActivationList);
+                     }
                      //visitor(*this, movemaker_.value(), bound, length, subgraphForest_.size());
                      if(visitor(*this)!=0){
                         continueInf=false;
@@ -1184,6 +1193,20 @@ LazyFlipper<GM, ACC>::activateInfluencedVariables(
    }
 }
 
+// flips of any variable can improve a labeling whose value was infinite
+template<class GM, class ACC>
+inline void
+LazyFlipper<GM, ACC>::activateAllVariables
+(
+   const size_t activationListIndex
+)
+{
+   OPENGM_ASSERT(activationListIndex < 2);
+   for(size_t j=0; j<gm_.numberOfVariables(); ++j) {
+      activation_[activationListIndex].tag(j, true);
+   }
+}
+
 template<class GM, class ACC>
 inline void
 LazyFlipper<GM, ACC>::deactivateAllVariables(
@@ -1309,14 +1332,10 @@ LazyFlipper<GM, ACC>::flipMultiLabel(
       node = subgraphForest_.parent(node);
    }
    OPENGM_ASSERT(node == NONODE);
-   ValueType energy = movemaker_.value();
+   // either all of these labels change or none of them
+   const LabelType label = movemaker_.state(variableIndices[0]);
    movemaker_.template moveOptimallyWithAllLabelsChanging<AccumulationType>(variableIndices.begin(), variableIndices.end());
-   if(AccumulationType::bop(movemaker_.value(), energy)) {
-      return true;
-   }
-   else {
-      return false;
-   }
+   return movemaker_.state(variableIndices[0]) != label;
 }
 
 } // namespace opengm
diff --git a/include/opengm/inference/movemaker.hxx b/include/opengm/inference/movemaker.hxx
index 1bcc2f1..6a8ad9a 100644
--- a/include/opengm/inference/movemaker.hxx
+++ b/include/opengm/inference/movemaker.hxx
@@ -44,6 +44,7 @@ public:
    template<class StateIterator>
       Movemaker(const GraphicalModelType&, StateIterator); 
    ValueType value() const;
+   static bool isAbsorbing(const ValueType);
    template<class IndexIterator, class StateIterator>
       ValueType valueAfterMove(IndexIterator, IndexIterator, StateIterator);
    const LabelType& state(const size_t) const;
@@ -287,6 +288,18 @@ Movemaker<GM>::value() const {
    return energy_;
 }
 
+/// true for values (infinite sums, products equal to zero) that hide the
+/// effect of moves from the value of the model
+template<class GM>
+inline bool
+Movemaker<GM>::isAbsorbing
+(
+   const ValueType value
+) {
+   return !isFinite(value)
+      || (meta::Compare<OperatorType, opengm::Multiplier>::value && value == static_cast<ValueType>(0));
+}
+
 template<class GM>
 template<class IndexIterator, class StateIterator>
 typename Movemaker<GM>::ValueType
-- 
2.43.0


From edd44348414c75d8932e9f00f1306494936a0a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 123/224] fix: ICM with factor moves stopped before no factor
 move improved the labeling

---
 include/opengm/inference/icm.hxx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/icm.hxx b/include/opengm/inference/icm.hxx
index 26a3989..9c2131e 100644
--- a/include/opengm/inference/icm.hxx
+++ b/include/opengm/inference/icm.hxx
@@ -234,7 +234,7 @@ InferenceTermination ICM<GM,ACC>::infer
       opengm::BufferVector<LabelType> stateBuffer;
       stateBuffer.reserve(10);
       //gm_.factorAdjacencyList(variableAdjacencyList);
-      size_t f=0,ff=0,v=0;
+      size_t f=0,ff=0,v=0,n=0,fn=0;
       while(updates && exitInf==false) {
          updates = false;
          for(f=0; f<gm_.numberOfFactors() && exitInf==false; ++f) {
@@ -259,7 +259,14 @@ InferenceTermination ICM<GM,ACC>::infer
                      const size_t varIndex=gm_[f].variableIndex(v);
                      if(stateBuffer[v]!=movemaker_.state(varIndex)) {
                         for(ff=0;ff<gm_.numberOfFactors(varIndex);++ff) {
-                           isLocalOptimal[gm_.factorOfVariable(varIndex,ff)]=false;
+                           // all factors that share a variable with a factor whose value changed
+                           const IndexType factor=gm_.factorOfVariable(varIndex,ff);
+                           for(n=0;n<gm_[factor].numberOfVariables();++n) {
+                              const IndexType neighbor=gm_[factor].variableIndex(n);
+                              for(fn=0;fn<gm_.numberOfFactors(neighbor);++fn) {
+                                 isLocalOptimal[gm_.factorOfVariable(neighbor,fn)]=false;
+                              }
+                           }
                         }
                      }
                   }
-- 
2.43.0


From dc7bf7987653fda91e28010a136104995ad41840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 124/224] fix: converting alpha-expansion parameters did not
 compile and took the label order as initial labeling

---
 include/opengm/inference/alphaexpansion.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index d5b21e3..0814b4d 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -61,12 +61,12 @@ public:
         )
         :   parameter_(p.parameter_),
             maxNumberOfSteps_(p.maxNumberOfSteps_),
-            labelInitialType_(p.labelInitialType_),
-            orderType_(p.orderType_),
+            labelInitialType_(static_cast<LabelingIntitialType>(static_cast<int>(p.labelInitialType_))),
+            orderType_(static_cast<OrderType>(static_cast<int>(p.orderType_))),
             randSeedOrder_(p.randSeedOrder_),
             randSeedLabel_(p.randSeedLabel_),
             labelOrder_(p.labelOrder_),
-            label_(p.labelOrder_)
+            label_(p.label_)
         {}
 
         InferenceParameter parameter_;
-- 
2.43.0


From 9fdcfb503ec45f57a51def5d8ee87abaf08a41f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 125/224] fix: alpha-expansion ignored pairwise terms of
 differently labeled variables

---
 include/opengm/inference/alphaexpansion.hxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index 0814b4d..4dec27b 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -359,9 +359,12 @@ AlphaExpansion<GM, INF>::infer
                }
                else{
                   OPENGM_ASSERT(varX < numberOfVariables + numberOfAuxiliaryNodes);
-                  addPairwise(inf, var1, varX, 0, factor(vecAX), 0, 0);
-                  addPairwise(inf, var2, varX, 0, factor(vecXA), 0, 0);
-                  addUnary(inf, varX, factor(vecAA), factor(vecXX));
+                  const ValueType valueAA = factor(vecAA);
+                  const ValueType valueXA = factor(vecXA) - valueAA;
+                  const ValueType valueAX = factor(vecAX) - valueAA;
+                  addPairwise(inf, var1, varX, 0, valueXA, valueXA, 0);
+                  addPairwise(inf, var2, varX, 0, valueAX, valueAX, 0);
+                  addUnary(inf, varX, valueAA, factor(vecXX));
                   ++varX;
                }
             }
-- 
2.43.0


From 5968932cdc5551bea1c3a82b51f7d3062ced1258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 126/224] fix: alpha-expansion passed infinite values to the
 minimum cut

---
 include/opengm/inference/alphaexpansion.hxx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index 4dec27b..457654b 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -322,7 +322,6 @@ AlphaExpansion<GM, INF>::infer
       size_t countAlphas = 0;
       for (size_t k=0 ; k<gm_.numberOfVariables(); ++k) {
          if (label_[k] == alpha_ ) {
-            addUnary(inf, k, 0, std::numeric_limits<ValueType>::infinity());
             ++countAlphas;
          }
       }
-- 
2.43.0


From 02b8fdaa022a568871e09b9c07b167e63f199602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 127/224] fix: alpha-expansion accepted worse labelings

---
 include/opengm/inference/alphaexpansion.hxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index 457654b..16ebf31 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -372,11 +372,16 @@ AlphaExpansion<GM, INF>::infer
          inf.infer();
          inf.arg(state);
          OPENGM_ASSERT(state.size() == numberOfVariables + numberOfAuxiliaryNodes);
+         std::vector<LabelType> label(label_);
          for(size_t var=0; var<numberOfVariables ; ++var) {
             if (label_[var] != alpha_ && state[var]==0) {
-               label_[var] = alpha_;
+               label[var] = alpha_;
             }
-            OPENGM_ASSERT(label_[var] < gm_.numberOfLabels(var));
+            OPENGM_ASSERT(label[var] < gm_.numberOfLabels(var));
+         }
+         // never worsen (possible if the model is not a metric)
+         if(!AccumulationType::ibop(gm_.evaluate(label), energy)) {
+            label_ = label;
          }
       }
       OPENGM_ASSERT(gm_.numberOfVariables() == label_.size());
-- 
2.43.0


From a52c2b8f6aa740540baa58903d1ac0942b05226a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 128/224] fix: unsuitable label orders made alpha-expansion
 read out of bounds

---
 include/opengm/inference/alphaexpansion.hxx | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index 16ebf31..aeb16de 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -432,8 +432,18 @@ AlphaExpansion<GM, INF>::setLabelOrder
 (
    std::vector<LabelType>& l
 ) {
-   if(l.size() == maxState_) {
-      labelList_=l;
+   // a list that is not a permutation of the labels is replaced by the default order
+   labelList_.resize(maxState_);
+   std::vector<bool> used(maxState_, false);
+   bool valid = l.size() == maxState_;
+   for(size_t i=0; valid && i<maxState_; ++i) {
+      valid = l[i] < maxState_ && !used[l[i]];
+      if(valid) {
+         used[l[i]] = true;
+      }
+   }
+   for(size_t i=0; i<maxState_; ++i) {
+      labelList_[i] = valid ? l[i] : static_cast<LabelType>(i);
    }
 }
 
-- 
2.43.0


From f3d89ed61d3608387d656f5c975441bf398a8955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 129/224] fix: alpha-expansion read out of bounds for models
 without variables

---
 include/opengm/inference/alphaexpansion.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index aeb16de..d500e4e 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -200,7 +200,7 @@ AlphaExpansion<GM, INF>::AlphaExpansion
    }
 
    counter_ = 0;
-   alpha_   = labelList_[counter_];
+   alpha_   = maxState_ > 0 ? static_cast<size_t>(labelList_[counter_]) : 0;
 }
 
 // reset assumes that the structure of
@@ -233,7 +233,7 @@ AlphaExpansion<GM, INF>::reset() {
          labelList_[i] = i;
    }
    counter_ = 0;
-   alpha_   = labelList_[counter_];
+   alpha_   = maxState_ > 0 ? static_cast<size_t>(labelList_[counter_]) : 0;
 }
 
 template<class GM, class INF>
-- 
2.43.0


From a121cc5bc79cfee8fde5af2efd7d944ee8340a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 130/224] fix: the locally optimal start of alpha-expansion
 mixed up factors and variables

---
 include/opengm/inference/alphaexpansion.hxx | 25 ++++++++++++++-------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index d500e4e..029a6eb 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -482,16 +482,25 @@ template<class GM, class INF>
 inline void
 AlphaExpansion<GM, INF>::setInitialLabelLocalOptimal() {
    label_.resize(gm_.numberOfVariables(), 0);
-   std::vector<size_t> accVec;
+   std::fill(label_.begin(), label_.end(), 0);
+   // unary values of all variables, summed over all unary factors
+   std::vector<std::vector<ValueType> > unaries(gm_.numberOfVariables());
+   for(size_t i=0; i<gm_.numberOfVariables(); ++i) {
+      unaries[i].resize(gm_.numberOfLabels(i), static_cast<ValueType>(0));
+   }
    for(size_t i=0; i<gm_.numberOfFactors();++i) {
       if(gm_[i].numberOfVariables()==1) {
-         std::vector<size_t> state(1, 0);
-         ValueType value = gm_[i](state.begin());
-         for(state[0]=1; state[0]<gm_.numberOfLabels(i); ++state[0]) {
-            if(AccumulationType::bop(gm_[i](state.begin()), value)) {
-               value = gm_[i](state.begin());
-               label_[i] = state[0];
-            }
+         const size_t var = gm_[i].variableIndex(0);
+         LabelType state[] = {0};
+         for(; state[0]<gm_.numberOfLabels(var); ++state[0]) {
+            unaries[var][state[0]] += gm_[i](state);
+         }
+      }
+   }
+   for(size_t i=0; i<gm_.numberOfVariables(); ++i) {
+      for(size_t j=1; j<unaries[i].size(); ++j) {
+         if(AccumulationType::bop(unaries[i][j], unaries[i][label_[i]])) {
+            label_[i] = j;
          }
       }
    }
-- 
2.43.0


From ea86a7b1252044d4699deac56c5a269963cebcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 131/224] fix: resetting alpha-expansion with an unsuitable
 initial labeling kept the last labeling

---
 include/opengm/inference/alphaexpansion.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index 029a6eb..5392609 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -468,6 +468,7 @@ AlphaExpansion<GM, INF>::setInitialLabel
    std::vector<LabelType>& l
 ) {
    label_.resize(gm_.numberOfVariables());
+   std::fill(label_.begin(), label_.end(), 0);
    if(l.size() == label_.size()) {
       for(size_t i=0; i<l.size();++i) {
          if(l[i]>=gm_.numberOfLabels(i)) return;
-- 
2.43.0


From 6df5a60e3bcad3b27ab62d223778597e7d044479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 132/224] fix: alpha-expansion evaluated factors out of bounds
 if variables have different numbers of labels

---
 include/opengm/inference/alphaexpansion.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index 5392609..ecfe0da 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -172,6 +172,11 @@ AlphaExpansion<GM, INF>::AlphaExpansion
          maxState_ = numSt;
       }
    }
+   for(size_t i=0; i<gm_.numberOfVariables(); ++i) {
+      if(gm_.numberOfLabels(i) != maxState_) {
+         throw RuntimeError("This implementation of Alpha-Expansion supports only models whose variables have equally many labels.");
+      }
+   }
 
    if(parameter_.labelInitialType_ == Parameter::RANDOM_LABEL) {
       setInitialLabelRandom(parameter_.randSeedLabel_);
-- 
2.43.0


From a1202d92bc41e4bbb84bb6e2aaa402d3cc153685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 133/224] fix: converting alpha-beta-swap parameters left the
 number of iterations uninitialized

---
 include/opengm/inference/alphabetaswap.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/alphabetaswap.hxx b/include/opengm/inference/alphabetaswap.hxx
index 9a21537..a927cb9 100644
--- a/include/opengm/inference/alphabetaswap.hxx
+++ b/include/opengm/inference/alphabetaswap.hxx
@@ -43,7 +43,7 @@ public:
         template<class P>
         Parameter(const P & p)
         :   parameter_(p.parameter_),
-            maxNumberOfIterations_(maxNumberOfIterations_){
+            maxNumberOfIterations_(p.maxNumberOfIterations_){
         }
 
         typename InferenceType::Parameter parameter_; 
-- 
2.43.0


From 90bb66e6b7b5389eb7671d89c8d48d89f4cfd0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 134/224] fix: alpha-beta-swap stopped before no swap improved
 the labeling

---
 include/opengm/inference/alphabetaswap.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/alphabetaswap.hxx b/include/opengm/inference/alphabetaswap.hxx
index a927cb9..5a3327f 100644
--- a/include/opengm/inference/alphabetaswap.hxx
+++ b/include/opengm/inference/alphabetaswap.hxx
@@ -296,6 +296,7 @@ AlphaBetaSwap<GM, INF>::infer
       OPENGM_ASSERT(!AccumulationType::ibop(energy2, energy));
       if (AccumulationType::bop(energy2, energy)) {
          energy = energy2;
+         countUnchanged = 0;
       } else {
          ++countUnchanged;
       }
-- 
2.43.0


From 5c5c8c20f5df031a71e9a89843b66ad80b8fafac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 135/224] fix: alpha-beta-swap did not count unused label pairs
 as unchanged

---
 include/opengm/inference/alphabetaswap.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/alphabetaswap.hxx b/include/opengm/inference/alphabetaswap.hxx
index 5a3327f..af1578c 100644
--- a/include/opengm/inference/alphabetaswap.hxx
+++ b/include/opengm/inference/alphabetaswap.hxx
@@ -227,6 +227,7 @@ AlphaBetaSwap<GM, INF>::infer
          }
       }
       if (counter == 0) {
+         ++countUnchanged;
          continue;
       }
       INF inf(counter, numFacDim);
-- 
2.43.0


From c2630f5bebf4404682cfee35f540ac0acf1b3108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 136/224] fix: alpha-beta-swap ignored the parameter of the
 binary solver

---
 include/opengm/inference/alphabetaswap.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/alphabetaswap.hxx b/include/opengm/inference/alphabetaswap.hxx
index af1578c..893fff6 100644
--- a/include/opengm/inference/alphabetaswap.hxx
+++ b/include/opengm/inference/alphabetaswap.hxx
@@ -230,7 +230,7 @@ AlphaBetaSwap<GM, INF>::infer
          ++countUnchanged;
          continue;
       }
-      INF inf(counter, numFacDim);
+      INF inf(counter, numFacDim, parameter_.parameter_);
       vecA[0] = alpha_;
       vecB[0] = beta_;
       vecAA[0] = alpha_;
-- 
2.43.0


From 7feffebf0be0665ec4e7f7eba810b181da283ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 137/224] fix: alpha-beta-swap evaluated factors out of bounds
 if variables have different numbers of labels

---
 include/opengm/inference/alphabetaswap.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/opengm/inference/alphabetaswap.hxx b/include/opengm/inference/alphabetaswap.hxx
index 893fff6..65ff0a9 100644
--- a/include/opengm/inference/alphabetaswap.hxx
+++ b/include/opengm/inference/alphabetaswap.hxx
@@ -130,6 +130,11 @@ inline AlphaBetaSwap<GM, INF>::AlphaBetaSwap
       if (numSt > maxState_)
          maxState_ = numSt;
    }
+   for (size_t i = 0; i < gm_.numberOfVariables(); ++i) {
+      if (gm_.numberOfLabels(i) != maxState_) {
+         throw RuntimeError("This implementation of Alpha-Beta-Swap supports only models whose variables have equally many labels.");
+      }
+   }
 }
 
 template<class GM, class INF>
-- 
2.43.0


From 59fd94eb772a971354ad4fe50b2c4bdd00ff2633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 138/224] fix: alpha-beta-swap rejected all maximization
 problems

---
 include/opengm/inference/alphabetaswap.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/alphabetaswap.hxx b/include/opengm/inference/alphabetaswap.hxx
index 65ff0a9..bebf03d 100644
--- a/include/opengm/inference/alphabetaswap.hxx
+++ b/include/opengm/inference/alphabetaswap.hxx
@@ -187,7 +187,7 @@ AlphaBetaSwap<GM, INF>::addPairwise
    fac(0, 1) = v1;
    fac(1, 0) = v2;
    fac(1, 1) = v3;
-   OPENGM_ASSERT(v1 + v2 - v0 - v3 >= 0);
+   OPENGM_ASSERT(!AccumulationType::bop(v1 + v2, v0 + v3));
    inf.addFactor(fac);
 }
 template<class GM, class INF>
-- 
2.43.0


From c55d6663b99b7de9dfae1e1fe3b76bd09c3fe8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 139/224] fix: alpha-expansion could end in a labeling that an
 expansion improves, after a move of equal value

---
 include/opengm/inference/alphaexpansion.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index ecfe0da..d9a7d50 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -384,8 +384,9 @@ AlphaExpansion<GM, INF>::infer
             }
             OPENGM_ASSERT(label[var] < gm_.numberOfLabels(var));
          }
-         // never worsen (possible if the model is not a metric)
-         if(!AccumulationType::ibop(gm_.evaluate(label), energy)) {
+         // keep the labeling unless it improves: changes without improvement are not counted,
+         // and moves can worsen the labeling if the model is not a metric
+         if(AccumulationType::bop(gm_.evaluate(label), energy)) {
             label_ = label;
          }
       }
-- 
2.43.0


From d235b0a6f0b92af3f78ca95a2dba95b82b4bffaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 140/224] fix: alpha-expansion passed negative capacities to
 the minimum cut if the model is not a metric

---
 include/opengm/inference/alphaexpansion.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index d9a7d50..6ee9324 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -277,6 +277,7 @@ AlphaExpansion<GM, INF>::addPairwise
    fac(0, 1) = v1;
    fac(1, 0) = v2;
    fac(1, 1) = v3;
+   OPENGM_ASSERT(!AccumulationType::bop(v1 + v2, v0 + v3));
    inf.addFactor(fac);
 }
 
-- 
2.43.0


From 794f9e86ad970bf9f5e1062a6675e0fbbe6efd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 141/224] fix: alpha-beta-swap could end in a labeling that a
 swap improves, after a move of equal value

---
 include/opengm/inference/alphabetaswap.hxx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/alphabetaswap.hxx b/include/opengm/inference/alphabetaswap.hxx
index bebf03d..c170884 100644
--- a/include/opengm/inference/alphabetaswap.hxx
+++ b/include/opengm/inference/alphabetaswap.hxx
@@ -285,17 +285,22 @@ AlphaBetaSwap<GM, INF>::infer
       inf.infer();
       inf.arg(state);
       OPENGM_ASSERT(state.size() == counter);
+      std::vector<LabelType> label(label_);
       for (size_t var = 0; var < numberOfVariables; ++var) {
          if (label_[var] == alpha_ || label_[var] == beta_) {
             if (state[variable2Node[var]] == 0)
-               label_[var] = alpha_;
+               label[var] = alpha_;
             else
-               label_[var] = beta_;
+               label[var] = beta_;
          } else {
             //do nothing
          }
       }
-      ValueType energy2 = gm_.evaluate(label_);
+      ValueType energy2 = gm_.evaluate(label);
+      // keep the labeling unless it improves: changes without improvement are not counted
+      if (AccumulationType::bop(energy2, energy)) {
+         label_ = label;
+      }
       if( visitor(*this) != visitors::VisitorReturnFlag::ContinueInf ){
          exitInf=true;
       }
-- 
2.43.0


From 1ae67663c27be51c6d4c3b428eee41f9a930b538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 142/224] fix: merging factors of a product model added their
 values

---
 .../opengm/inference/auxiliary/submodel/submodel_builder.hxx  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/submodel/submodel_builder.hxx b/include/opengm/inference/auxiliary/submodel/submodel_builder.hxx
index 91610d6..4271281 100644
--- a/include/opengm/inference/auxiliary/submodel/submodel_builder.hxx
+++ b/include/opengm/inference/auxiliary/submodel/submodel_builder.hxx
@@ -76,7 +76,9 @@ void mergeFactors(
                 ArrayFunction buffer(fac.shapeBegin(),fac.shapeEnd());
                 fac.copyValues(&buffer(0));
                 // update function
-                function+=buffer;
+                for(size_t i=0;i<function.size();++i){
+                    GM::OperatorType::op(buffer(i),function(i));
+                }
             }
 
         }
-- 
2.43.0


From 23518364c87f4414366eb17adcfcf0928d920391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 143/224] fix: transpose of non-square matrices wrote out of
 bounds

---
 include/opengm/inference/auxiliary/transportationsolver.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/transportationsolver.hxx b/include/opengm/inference/auxiliary/transportationsolver.hxx
index f0d3373..9779fe3 100644
--- a/include/opengm/inference/auxiliary/transportationsolver.hxx
+++ b/include/opengm/inference/auxiliary/transportationsolver.hxx
@@ -558,7 +558,7 @@ private:
 template<class T>
 void transpose(const MatrixWrapper<T>& input, MatrixWrapper<T>& result)
 {
- result.resize(input.xsize(),input.ysize());
+ result.resize(input.ysize(),input.xsize());
  for (size_t x=0;x<input.xsize();++x)
   for (size_t y=0;y<input.ysize();++y)
 	  result(y,x)=input(x,y);
-- 
2.43.0


From 6e99a555bd2386487d27ea99fce9f4628fd2008f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 144/224] fix: TransportationSolver refused marginals whose
 masses differ by rounding

---
 .../inference/auxiliary/transportationsolver.hxx    | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/opengm/inference/auxiliary/transportationsolver.hxx b/include/opengm/inference/auxiliary/transportationsolver.hxx
index 9779fe3..174cd93 100644
--- a/include/opengm/inference/auxiliary/transportationsolver.hxx
+++ b/include/opengm/inference/auxiliary/transportationsolver.hxx
@@ -753,24 +753,19 @@ _InitBasicSolution(const UnaryDense& xarr,const UnaryDense& yarr)
 	size_t counter=0;
 	while ((rbeg!=rend)&&(cbeg!=cend))
 	{
-	if (*cbeg>=*rbeg)
+	// due to rounding the masses may differ slightly; the last row/column takes whatever is left
+	if ((cbeg+1==cend) || ((rbeg+1!=rend) && (*cbeg>=*rbeg)))
 	{
 		//_basicSolution.push(rbeg.index(), cbeg.index(),*rbeg);
 		_basicSolution.push(rbeg-row.begin(), cbeg-col.begin(),*rbeg);
 		(*cbeg)-=(*rbeg);
-		if (rbeg!=rend)
-		 ++rbeg;
-		else
-		 ++cbeg;
+		++rbeg;
 	}
 	else
 	{
 		_basicSolution.push(rbeg-row.begin(),cbeg-col.begin(),*cbeg);
 		(*rbeg)-=(*cbeg);
-		if (cbeg!=cend)
-		 ++cbeg;
-		else
-		 ++rbeg;
+		++cbeg;
 	}
 
 	_checkCounter(&counter,"_InitBasicSolution-infinite loop!\n");
-- 
2.43.0


From 2b33b8e395657006268a73c64cd0badd352a09f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 145/224] fix: TransportationSolver default constructor left
 members uninitialised

---
 include/opengm/inference/auxiliary/transportationsolver.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/transportationsolver.hxx b/include/opengm/inference/auxiliary/transportationsolver.hxx
index 174cd93..b2d7db1 100644
--- a/include/opengm/inference/auxiliary/transportationsolver.hxx
+++ b/include/opengm/inference/auxiliary/transportationsolver.hxx
@@ -634,7 +634,7 @@ public:
 #ifdef	TRWS_DEBUG_OUTPUT
 		_fout(fout),
 #endif
-		_pbinInitial(0),_xsize(0),_ysize(0),_relativePrecision(relativePrecision),_basicSolution(0,0,0),_maxIterationNumber(maxIterationNumber)
+		_primalValueNumericalPrecision(0),_recalculated(false),_pbinInitial(0),_xsize(0),_ysize(0),_relativePrecision(relativePrecision),_basicSolution(0,0,1),_maxIterationNumber(maxIterationNumber)
 	{
 		assert(relativePrecision >0);
 	};
-- 
2.43.0


From 82073c31b40b313dd6cd57b4ac6b004470083708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 146/224] fix: PrimalLPBound passed a temporary the solver
 keeps a pointer to

---
 include/opengm/inference/auxiliary/primal_lpbound.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/primal_lpbound.hxx b/include/opengm/inference/auxiliary/primal_lpbound.hxx
index cac675b..1fe98f3 100644
--- a/include/opengm/inference/auxiliary/primal_lpbound.hxx
+++ b/include/opengm/inference/auxiliary/primal_lpbound.hxx
@@ -189,7 +189,9 @@ typename PrimalLPBound<GM,ACC>::ValueType PrimalLPBound<GM,ACC>::getFactorValue(
 	const typename GM::FactorType& factor=_gm[factorId];
 	IndexType var0=factor.variableIndex(0),
 			  var1=factor.variableIndex(1);
-	_solver.Init(_unaryFactors[var0].size(),_unaryFactors[var1].size(),FactorWrapper<typename GM::FactorType>(factor));
+	// the solver keeps the address of the matrix, it must outlive Solve()
+	const FactorWrapper<typename GM::FactorType> wrapper(factor);
+	_solver.Init(_unaryFactors[var0].size(),_unaryFactors[var1].size(),wrapper);
 	_bufferedValues[factorId]=_solver.Solve(_unaryFactors[var0].begin(),_unaryFactors[var1].begin());
 	_lastActiveSolver=factorId;
 	}
-- 
2.43.0


From 391c5159d40f783acb892f3eb527a4ded332c1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 147/224] fix: PrimalLPBound::getVariableValue asserted for
 variables without unary factor

---
 include/opengm/inference/auxiliary/primal_lpbound.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/primal_lpbound.hxx b/include/opengm/inference/auxiliary/primal_lpbound.hxx
index 1fe98f3..3a74b20 100644
--- a/include/opengm/inference/auxiliary/primal_lpbound.hxx
+++ b/include/opengm/inference/auxiliary/primal_lpbound.hxx
@@ -217,9 +217,9 @@ typename PrimalLPBound<GM,ACC>::ValueType PrimalLPBound<GM,ACC>::getVariableValu
 	OPENGM_ASSERT(varId < _gm.numberOfVariables());
 	OPENGM_ASSERT(varId < _unaryFactors.size());
 	IndexType factorId=_mapping(varId);
-	OPENGM_ASSERT(_mapping(varId) < _gm.numberOfFactors());
 	if (factorId==VariableToFactorMapping<GM>::InvalidIndex)
 		return (ValueType)0;
+	OPENGM_ASSERT(factorId < _gm.numberOfFactors());
 
 	if (_bufferedValues[factorId] != ValueTypeNan)
 		return _bufferedValues[factorId];
-- 
2.43.0


From 3235493b12caac0790c0f530ac09998f1c7f94c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 148/224] fix: PrimalLPBound::ResetBuffer did not compile

---
 include/opengm/inference/auxiliary/primal_lpbound.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/primal_lpbound.hxx b/include/opengm/inference/auxiliary/primal_lpbound.hxx
index 3a74b20..6db3ae1 100644
--- a/include/opengm/inference/auxiliary/primal_lpbound.hxx
+++ b/include/opengm/inference/auxiliary/primal_lpbound.hxx
@@ -86,7 +86,7 @@ public:
 	template<class Matrix>
 	ValueType getFactorVariable(IndexType factorId, Matrix& matrix); //pairwise factor factorId, buffering of the solution is performed
 
-	void ResetBuffer(){_bufferedValues(_gm.numberOfFactors(),ValueTypeNan); _totalValue=ValueTypeNan;}//reset buffer, if you changed potentials of gm and want to take this fact into account
+	void ResetBuffer(){_bufferedValues.assign(_gm.numberOfFactors(),ValueTypeNan); _lastActiveSolver=InvalidIndex; _totalValue=ValueTypeNan;}//reset buffer, if you changed potentials of gm and want to take this fact into account
 	bool IsValueBuffered(IndexType factorId)const{OPENGM_ASSERT(factorId<_bufferedValues.size()); return (_bufferedValues[factorId] != ValueTypeNan);}
 	bool IsFactorVariableBuffered(IndexType factorId)const{return _lastActiveSolver==factorId;}
 	static void CheckDuplicateUnaryFactors(const GM& gm);
-- 
2.43.0


From 426e6c0c519e7d913de5a921bf8c5716052a557d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 149/224] fix: PrimalLPBound::getFactorVariable returned plans
 of other factors or old weights

---
 include/opengm/inference/auxiliary/primal_lpbound.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/opengm/inference/auxiliary/primal_lpbound.hxx b/include/opengm/inference/auxiliary/primal_lpbound.hxx
index 6db3ae1..e83dc26 100644
--- a/include/opengm/inference/auxiliary/primal_lpbound.hxx
+++ b/include/opengm/inference/auxiliary/primal_lpbound.hxx
@@ -160,6 +160,8 @@ void PrimalLPBound<GM,ACC>::setVariable(IndexType var, Iterator inputBegin)
 		IndexType factorId=_gm.factorOfVariable(var,i);
 		OPENGM_ASSERT(factorId < _gm.numberOfFactors() );
 		_bufferedValues[factorId] = ValueTypeNan;
+		if (_lastActiveSolver==factorId)
+			_lastActiveSolver=InvalidIndex;
 	}
 }
 
@@ -206,7 +208,11 @@ typename PrimalLPBound<GM,ACC>::ValueType PrimalLPBound<GM,ACC>::getFactorVariab
 	_checkPWFactorID(factorId,"PrimalLPBound::getFactorVariable(): ");
 
 	if (_lastActiveSolver!=factorId)
+	{
+		// the value may be buffered although the solver holds the plan of another factor
+		_bufferedValues[factorId]=ValueTypeNan;
 		getFactorValue(factorId);
+	}
 
 	return _solver.GetSolution(&matrix);
 }
-- 
2.43.0


From 7b406ca0900fdc822265b0431d99325ccac0efcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 150/224] fix: PrimalLPBound did not reject factors that are
 not pairwise

---
 include/opengm/inference/auxiliary/primal_lpbound.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/primal_lpbound.hxx b/include/opengm/inference/auxiliary/primal_lpbound.hxx
index e83dc26..2a7cf29 100644
--- a/include/opengm/inference/auxiliary/primal_lpbound.hxx
+++ b/include/opengm/inference/auxiliary/primal_lpbound.hxx
@@ -178,7 +178,7 @@ void PrimalLPBound<GM,ACC>::_checkPWFactorID(IndexType factorId, const std::stri
 {
 	OPENGM_ASSERT(factorId < _gm.numberOfFactors());
 	if (_gm[factorId].numberOfVariables() !=2 )
-		std::runtime_error(message_prefix + "Function can be applied to second order factors only!");
+		throw std::runtime_error(message_prefix + "Function can be applied to second order factors only!");
 }
 
 template <class GM,class ACC>
-- 
2.43.0


From af787dd98b1d5ed2252a646bd3aa5c5962dafe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 151/224] fix: PrimalLPBound::getTotalValue refused constant
 factors

---
 include/opengm/inference/auxiliary/primal_lpbound.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/auxiliary/primal_lpbound.hxx b/include/opengm/inference/auxiliary/primal_lpbound.hxx
index 2a7cf29..7ef5d7b 100644
--- a/include/opengm/inference/auxiliary/primal_lpbound.hxx
+++ b/include/opengm/inference/auxiliary/primal_lpbound.hxx
@@ -253,6 +253,7 @@ typename PrimalLPBound<GM,ACC>::ValueType PrimalLPBound<GM,ACC>::getTotalValue()
 		const typename GM::FactorType& f=_gm[factorId];
 		switch (f.numberOfVariables())
 		{
+		case 0: {LabelType l=0; _totalValue+=f(&l); break;}
 		case 1:	_totalValue+=getVariableValue(f.variableIndex(0)); break;
 		case 2: _totalValue+=getFactorValue(factorId);break;
 		default: throw std::runtime_error("PrimalLPBound::getTotalValue(): Only factors of order <= 2 are supported!");
-- 
2.43.0


From 073d783776fde587ea27d83dcdd5d7c2461b2940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 152/224] fix: VariableToFactorMapping did not report duplicate
 unary factors

---
 include/opengm/inference/trws/utilities2.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/utilities2.hxx b/include/opengm/inference/trws/utilities2.hxx
index 763cfde..7a81fc9 100644
--- a/include/opengm/inference/trws/utilities2.hxx
+++ b/include/opengm/inference/trws/utilities2.hxx
@@ -55,7 +55,7 @@ _mapping(gm.numberOfVariables(),InvalidIndex)//invalid index
 		if (gm[i].numberOfVariables() == 1)
 		{ if (_mapping[gm[i].variableIndex(0)]==InvalidIndex)
 			_mapping[gm[i].variableIndex(0)]=i;
-		  else std::runtime_error("VariableToFactorMapping::VariableToFactorMapping() : duplicate unary factor!");
+		  else throw std::runtime_error("VariableToFactorMapping::VariableToFactorMapping() : duplicate unary factor!");
 		}
 
 	_numberOfUnaryFactors=std::count_if(_mapping.begin(),_mapping.end(),std::bind2nd(std::not_equal_to<IndexType>(),InvalidIndex));
-- 
2.43.0


From 953d56a0f4cbd5cddbda7869ef832afdbd180332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 153/224] fix: TransportationSolver could start from a basic
 solution with a (tiny) negative mass

---
 include/opengm/inference/auxiliary/transportationsolver.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/transportationsolver.hxx b/include/opengm/inference/auxiliary/transportationsolver.hxx
index b2d7db1..db3bfbe 100644
--- a/include/opengm/inference/auxiliary/transportationsolver.hxx
+++ b/include/opengm/inference/auxiliary/transportationsolver.hxx
@@ -757,7 +757,7 @@ _InitBasicSolution(const UnaryDense& xarr,const UnaryDense& yarr)
 	if ((cbeg+1==cend) || ((rbeg+1!=rend) && (*cbeg>=*rbeg)))
 	{
 		//_basicSolution.push(rbeg.index(), cbeg.index(),*rbeg);
-		_basicSolution.push(rbeg-row.begin(), cbeg-col.begin(),*rbeg);
+		_basicSolution.push(rbeg-row.begin(), cbeg-col.begin(),std::max(*rbeg,(floatType)0));
 		(*cbeg)-=(*rbeg);
 		++rbeg;
 	}
-- 
2.43.0


From 3574e31527924503dd440c2164b632178d57d097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:15 +0000
Subject: [PATCH 154/224] fix: LPReparametrisationStorage::getFactorValue read
 the variable index of constant factors

---
 include/opengm/inference/auxiliary/lp_reparametrization.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/lp_reparametrization.hxx b/include/opengm/inference/auxiliary/lp_reparametrization.hxx
index e67da01..ffce928 100644
--- a/include/opengm/inference/auxiliary/lp_reparametrization.hxx
+++ b/include/opengm/inference/auxiliary/lp_reparametrization.hxx
@@ -70,9 +70,12 @@ public:
 				OPENGM_ASSERT(*(it+varId) < _dualVariables[findex][varId].size());
 				res+=_dualVariables[findex][varId][*(it+varId)];
 			}
-		}else
+		}else if (factor.numberOfVariables()==1)
 		{
 			res=getVariableValue(factor.variableIndex(0),*it);
+		}else
+		{
+			res=factor(it);// constant factors are not reparametrized
 		}
 		return res;
 	}
-- 
2.43.0


From 9ba745c6219c6b1940da2ecf8fe15de5df73aa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 155/224] fix: PartitionMove did not compile for label types
 whose factors report another number type

---
 include/opengm/inference/partition-move.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/partition-move.hxx b/include/opengm/inference/partition-move.hxx
index b508356..ec64195 100644
--- a/include/opengm/inference/partition-move.hxx
+++ b/include/opengm/inference/partition-move.hxx
@@ -128,7 +128,7 @@ PartitionMove<GM, ACC>::PartitionMove
    for(size_t i=0; i<gm_.numberOfVariables(); ++i){
       if(gm_.numberOfLabels(i)<gm_.numberOfVariables()) {
          problemType_ = MWC;
-         numberOfTerminals_ = std::max(numberOfTerminals_ ,gm_.numberOfLabels(i));
+         numberOfTerminals_ = std::max(numberOfTerminals_ , static_cast<LabelType>(gm_.numberOfLabels(i)));
       }
    }
    for(size_t f=0; f<gm_.numberOfFactors();++f) {
-- 
2.43.0


From f4be56d5ac757e61a4743f799623e0ca43bfb900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 156/224] fix: PartitionMove read the label number of variable
 0 of a model without variables

---
 include/opengm/inference/partition-move.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/partition-move.hxx b/include/opengm/inference/partition-move.hxx
index ec64195..8afc4da 100644
--- a/include/opengm/inference/partition-move.hxx
+++ b/include/opengm/inference/partition-move.hxx
@@ -124,7 +124,7 @@ PartitionMove<GM, ACC>::PartitionMove
    //Set Problem Type
    problemType_           = MC;
    numberOfInternalEdges_ = 0;
-   numberOfTerminals_     = gm_.numberOfLabels(0); 
+   numberOfTerminals_     = gm_.numberOfVariables() > 0 ? gm_.numberOfLabels(0) : 0; 
    for(size_t i=0; i<gm_.numberOfVariables(); ++i){
       if(gm_.numberOfLabels(i)<gm_.numberOfVariables()) {
          problemType_ = MWC;
-- 
2.43.0


From e4e815ba7f4ca9074761378b2a083e2eac1def4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 157/224] fix: PartitionMove ignored all but the last of
 several factors on the same pair of variables

---
 include/opengm/inference/partition-move.hxx | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/opengm/inference/partition-move.hxx b/include/opengm/inference/partition-move.hxx
index 8afc4da..baaa18c 100644
--- a/include/opengm/inference/partition-move.hxx
+++ b/include/opengm/inference/partition-move.hxx
@@ -171,19 +171,27 @@ PartitionMove<GM, ACC>::PartitionMove
       else if(gm_[f].numberOfVariables()==2) {
          LabelType cc0[] = {0,0};
          LabelType cc1[] = {0,1};
-         edgeWeight_[numberOfInternalEdges] += gm_[f](cc1) - gm_[f](cc0); 
          constant_ += gm_[f](cc0);
          IndexType u = gm_[f].variableIndex(0);
          IndexType v = gm_[f].variableIndex(1);
-         neighbours_[u][v] = numberOfInternalEdges;
-         neighbours_[v][u] = numberOfInternalEdges;
-         ++numberOfInternalEdges;
+         const typename EdgeMapType::const_iterator edge = neighbours_[u].find(v);
+         if(edge != neighbours_[u].end()) { // several factors may connect the same pair of variables
+            edgeWeight_[edge->second] += gm_[f](cc1) - gm_[f](cc0);
+         }
+         else {
+            edgeWeight_[numberOfInternalEdges] += gm_[f](cc1) - gm_[f](cc0); 
+            neighbours_[u][v] = numberOfInternalEdges;
+            neighbours_[v][u] = numberOfInternalEdges;
+            ++numberOfInternalEdges;
+         }
       }    
       else{
          throw RuntimeError("Only supports second order Potts functions!");
       }
    }
-   OPENGM_ASSERT(numberOfInternalEdges==numberOfInternalEdges_);
+   OPENGM_ASSERT(numberOfInternalEdges<=numberOfInternalEdges_);
+   numberOfInternalEdges_ = numberOfInternalEdges;
+   edgeWeight_.resize(numberOfInternalEdges_);
 
    states_.resize(gm_.numberOfVariables(),0);
    size_t init = 2;  
-- 
2.43.0


From 440dd68c2a83cb4c699a14b62a0e8c3430224dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:28 +0000
Subject: [PATCH 158/224] fix: partitions.hxx used std::runtime_error without
 including stdexcept

---
 include/opengm/utilities/partitions.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/utilities/partitions.hxx b/include/opengm/utilities/partitions.hxx
index f8f02cb..d1b6ec5 100644
--- a/include/opengm/utilities/partitions.hxx
+++ b/include/opengm/utilities/partitions.hxx
@@ -3,7 +3,8 @@
 #define OPENGM_PARTITIONS_HXX
 
 #include <vector>
-#include <algorithm>  
+#include <algorithm>
+#include <stdexcept>
 
 namespace opengm {
 
-- 
2.43.0


From 909cb14108b818d9079ba0fe659a9cda071029d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 159/224] fix: RandomUniform of floating point numbers could
 return a number above its upper bound

---
 include/opengm/utilities/random.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/utilities/random.hxx b/include/opengm/utilities/random.hxx
index 9480823..1c32641 100644
--- a/include/opengm/utilities/random.hxx
+++ b/include/opengm/utilities/random.hxx
@@ -110,7 +110,8 @@ public:
       // however, not all std random number generators behave like this
       // thus this trivial work-around:
       T randomNumber = this->high_;
-      while(randomNumber == this->high_) {
+      // (rounding can also carry the result beyond high_)
+      while(randomNumber == this->high_ || (this->low_ < this->high_ && randomNumber > this->high_)) {
          randomNumber = (static_cast<T>(rand()) / static_cast<T>(RAND_MAX)) * (this->high_ - this->low_) + this->low_;
       }
       return randomNumber;
-- 
2.43.0


From 6a3ce790a8416635a8c7b9039cc926708f6dcab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 160/224] fix: RandomDiscreteWeighted could return a last state
 of weight zero

---
 include/opengm/utilities/random.hxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/opengm/utilities/random.hxx b/include/opengm/utilities/random.hxx
index 1c32641..e910947 100644
--- a/include/opengm/utilities/random.hxx
+++ b/include/opengm/utilities/random.hxx
@@ -186,6 +186,7 @@ public:
          probSum_[i]/=sum;
          probSum_[i]+=probSum_[i-1];
       }
+      closeDistribution();
    }
 
    template<class Iterator>
@@ -206,6 +207,7 @@ public:
          probSum_[i]/=sum;
          probSum_[i]+=probSum_[i-1];
       }
+      closeDistribution();
    }
 
    T operator()() const
@@ -223,6 +225,16 @@ public:
    }
 
 private:
+   // the accumulated probabilities end at 1 for every state from the last one
+   // with a positive weight, whatever the rounding of the sums before
+   void closeDistribution()
+   {
+      const U total = probSum_.back();
+      for(size_t i=probSum_.size();i>0 && probSum_[i-1]==total;--i) {
+         probSum_[i-1]=static_cast<U>(1);
+      }
+   }
+
    std::vector<U> probSum_;
    opengm::RandomUniform<U> randomFloatingPoint_;
 };
-- 
2.43.0


From 1d6c1864fae75a6cb801e82a4c7cfa4fbf843cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 161/224] fix: modelTrees::nodes appended to what its argument
 contained

---
 include/opengm/utilities/modelTrees.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/modelTrees.hxx b/include/opengm/utilities/modelTrees.hxx
index 4d5c076..c9e9fd6 100644
--- a/include/opengm/utilities/modelTrees.hxx
+++ b/include/opengm/utilities/modelTrees.hxx
@@ -153,7 +153,7 @@ namespace opengm{
   inline
   void modelTrees<GM>::nodes(std::vector<std::vector<IndexType> >& nodes){
     
-    nodes.resize(numberOfRoots_);
+    nodes.assign(numberOfRoots_, std::vector<IndexType>());
     for(IndexType i=0;i<gm_.numberOfVariables();++i){
       if(parents_[i]!=gm_.numberOfVariables()){
         IndexType treeID = representives_[treeOfVariable(i)];
-- 
2.43.0


From f62f6301267623606ef48054b8115327af60041d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 162/224] fix: SyntheticModelGenerator::buildFull and buildStar
 ran off the end of the function

---
 .../modelgenerators/syntheticmodelgenerator.hxx               | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx b/include/opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx
index d617f28..0115845 100644
--- a/include/opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx
+++ b/include/opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx
@@ -210,12 +210,12 @@ namespace opengm {
 
    template <class GM>
    inline typename SyntheticModelGenerator<GM>::GraphicalModelType SyntheticModelGenerator<GM>::buildFull(const size_t id, const IndexType numberOfVariables, const Parameter& parameter) {
-
+      throw RuntimeError("SyntheticModelGenerator::buildFull is not implemented.");
    }
 
    template <class GM>
    inline typename SyntheticModelGenerator<GM>::GraphicalModelType SyntheticModelGenerator<GM>::buildStar(const size_t id, const IndexType numberOfVariables, const Parameter& parameter) {
-
+      throw RuntimeError("SyntheticModelGenerator::buildStar is not implemented.");
    }
 
    template <class GM>
-- 
2.43.0


From 5c6e8dbab9ce19887288befa1e1d6e60f9f05279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 163/224] fix: SyntheticModelGenerator2 drew pairwise random
 integers from a wrong range and divided by zero for equal bounds

---
 .../modelgenerators/syntheticmodelgenerator.hxx              | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx b/include/opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx
index 0115845..d02762a 100644
--- a/include/opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx
+++ b/include/opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx
@@ -4,6 +4,7 @@
 
 /// \cond HIDDEN_SYMBOLS
 
+#include <algorithm>
 #include <vector>
 #include <map>
 
@@ -436,7 +437,7 @@ namespace opengm {
             if(!sharedFunction || i == 0) {
                ExplicitFunctionType function(shape, shape + 1);
                for(size_t ni = 0; ni < shape[0]; ++ni) {
-                  function(ni) = functionParameter[0] + rand() % (size_t) (functionParameter[1] - functionParameter[0]);
+                  function(ni) = functionParameter[0] + rand() % std::max(size_t(1), (size_t) (functionParameter[1] - functionParameter[0]));
                }
                funcId = gm.addFunction(function);
             }
@@ -496,7 +497,7 @@ namespace opengm {
          ExplicitFunctionType function(shapeBegin, shapeEnd);
          for(typename GM::LabelType ni = 0; ni < shapeBegin[0]; ++ni) {
             for(typename GM::LabelType nj = 0; nj < shapeBegin[1]; ++nj) {
-               function(ni, nj) = functionParameter[0] + rand() % (size_t) (functionParameter[0] - functionParameter[1]);
+               function(ni, nj) = functionParameter[0] + rand() % std::max(size_t(1), (size_t) (functionParameter[1] - functionParameter[0]));
             }
          }
          return gm.addFunction(function);
-- 
2.43.0


From 5aca87fc753aa26a7ffdc6ce975ca6dc2256a188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:31 +0000
Subject: [PATCH 164/224] fix: GibbsMarginalVisitor could not be passed to
 Gibbs::infer

---
 include/opengm/inference/gibbs.hxx | 42 ++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index 959df70..f2688e3 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -70,8 +70,11 @@ public:
       size_t addMarginal(VariableIndexIterator, VariableIndexIterator);
    size_t addMarginal(const size_t);
    void operator()(const GibbsType&, const ValueType, const ValueType, const size_t, const bool, const bool);
+   size_t operator()(const GibbsType&);
 
    // query
+   void begin(const GibbsType&) const {}
+   void end(const GibbsType&) const {}
    void begin(const GibbsType&, const ValueType, const ValueType) const {}
    void end(const GibbsType&, const ValueType, const ValueType) const {}
    size_t numberOfSamples() const;
@@ -155,6 +158,8 @@ public:
    ValueType markovValue() const;
    LabelType currentBestState(const size_t) const;
    ValueType currentBestValue() const;
+   bool burningIn() const;           // is the current step part of the burn-in phase?
+   bool lastMoveAccepted() const;    // has the last proposed move been performed?
 
 private:
    ValueType cosTemp(const ValueType arg,const ValueType periode,const ValueType min,const ValueType max)const{
@@ -176,6 +181,8 @@ private:
    std::vector<size_t> currentBestState_;
    ValueType currentBestValue_;
    bool inInference_;
+   bool burningIn_;
+   bool lastMoveAccepted_;
 };
 
 template<class GM, class ACC>
@@ -192,6 +199,8 @@ Gibbs<GM, ACC>::Gibbs
    currentBestValue_()
 {
    inInference_=false;
+   burningIn_=false;
+   lastMoveAccepted_=false;
    ACC::ineutral(currentBestValue_);
    if(parameter.startPoint_.size() != 0) {
       if(parameter.startPoint_.size() == gm.numberOfVariables()) {
@@ -292,12 +301,14 @@ InferenceTermination Gibbs<GM, ACC>::infer(
          const size_t label = randomLabel();
 
          // move
-         const bool burningIn = (iteration < parameter_.numberOfBurnInSteps_);
+         burningIn_ = (iteration < parameter_.numberOfBurnInSteps_);
+         lastMoveAccepted_ = false;
          if(label != movemaker_.state(variableIndex)) {
             const ValueType oldValue = movemaker_.value();
             const ValueType newValue = movemaker_.valueAfterMove(&variableIndex, &variableIndex + 1, &label);
             if(AccumulationType::bop(newValue, oldValue)) {
                movemaker_.move(&variableIndex, &variableIndex + 1, &label);
+               lastMoveAccepted_ = true;
                if(AccumulationType::bop(newValue, currentBestValue_) && newValue != currentBestValue_) {
                   currentBestValue_ = newValue;
                   for(size_t k = 0; k < currentBestState_.size(); ++k) {
@@ -314,6 +325,7 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                   >::convert(newValue, oldValue);
                if(randomProb() < pFlip) {
                   movemaker_.move(&variableIndex, &variableIndex + 1, &label); 
+                  lastMoveAccepted_ = true;
                   visitor(*this);
                   //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
                }
@@ -342,12 +354,14 @@ InferenceTermination Gibbs<GM, ACC>::infer(
          const size_t label = randomLabel();
 
          // move
-         const bool burningIn = (iteration < parameter_.numberOfBurnInSteps_);
+         burningIn_ = (iteration < parameter_.numberOfBurnInSteps_);
+         lastMoveAccepted_ = false;
          if(label != movemaker_.state(variableIndex)) {
             const ValueType oldValue = movemaker_.value();
             const ValueType newValue = movemaker_.valueAfterMove(&variableIndex, &variableIndex + 1, &label);
             if(AccumulationType::bop(newValue, oldValue)) {
                movemaker_.move(&variableIndex, &variableIndex + 1, &label);
+               lastMoveAccepted_ = true;
                if(AccumulationType::bop(newValue, currentBestValue_) && newValue != currentBestValue_) {
                   currentBestValue_ = newValue;
                   for(size_t k = 0; k < currentBestState_.size(); ++k) {
@@ -365,6 +379,7 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                if(randomProb() < pFlip*this->getTemperature(iteration)){
                   //std::cout<<"temp="<<this->getTemperature(iteration)<<"\n";
                   movemaker_.move(&variableIndex, &variableIndex + 1, &label); 
+                  lastMoveAccepted_ = true;
                   visitor(*this);
                   //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
                }
@@ -443,6 +458,20 @@ Gibbs<GM, ACC>::currentBestValue() const
    return currentBestValue_;
 }
 
+template<class GM, class ACC>
+inline bool
+Gibbs<GM, ACC>::burningIn() const
+{
+   return burningIn_;
+}
+
+template<class GM, class ACC>
+inline bool
+Gibbs<GM, ACC>::lastMoveAccepted() const
+{
+   return lastMoveAccepted_;
+}
+
 template<class GIBBS>
 inline
 GibbsMarginalVisitor<GIBBS>::GibbsMarginalVisitor()
@@ -503,6 +532,15 @@ GibbsMarginalVisitor<GIBBS>::operator()(
    }
 }
 
+template<class GIBBS>
+inline size_t
+GibbsMarginalVisitor<GIBBS>::operator()(
+   const typename GibbsMarginalVisitor<GIBBS>::GibbsType& gibbs
+) {
+   (*this)(gibbs, gibbs.markovValue(), gibbs.currentBestValue(), 0, gibbs.lastMoveAccepted(), gibbs.burningIn());
+   return visitors::VisitorReturnFlag::ContinueInf;
+}
+
 template<class GIBBS>
 template<class VariableIndexIterator>
 inline size_t
-- 
2.43.0


From 4382630d95aea97170f0570568e39aae6cfd1bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 165/224] fix: Gibbs without a start point never recorded a
 best state, reset kept the best value of the run before

---
 include/opengm/inference/gibbs.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index f2688e3..6403b68 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -201,7 +201,7 @@ Gibbs<GM, ACC>::Gibbs
    inInference_=false;
    burningIn_=false;
    lastMoveAccepted_=false;
-   ACC::ineutral(currentBestValue_);
+   currentBestValue_ = movemaker_.value();
    if(parameter.startPoint_.size() != 0) {
       if(parameter.startPoint_.size() == gm.numberOfVariables()) {
          movemaker_.initialize(parameter.startPoint_.begin());
@@ -230,6 +230,7 @@ Gibbs<GM, ACC>::reset() {
    else {
      movemaker_.reset();
      std::fill(currentBestState_.begin(), currentBestState_.end(), 0);
+     currentBestValue_ = movemaker_.value();
    }
 }
 
-- 
2.43.0


From ab2c528fff964a914b8f3f249ff075657f72deb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 166/224] fix: Gibbs with cyclic proposals only ever moved one
 variable

---
 include/opengm/inference/gibbs.hxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index 6403b68..4a540de 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -285,6 +285,7 @@ InferenceTermination Gibbs<GM, ACC>::infer(
    visitor.begin(*this);
    opengm::RandomUniform<size_t> randomVariable(0, gm_.numberOfVariables());
    opengm::RandomUniform<ProbabilityType> randomProb(0, 1);
+   size_t cyclicIndex = gm_.numberOfVariables() - 1; // the first cyclic proposal is variable 0
    
    if(parameter_.useTemp_==false){
       for(size_t iteration = 0; iteration < parameter_.maxNumberOfSamplingSteps_ + parameter_.numberOfBurnInSteps_; ++iteration) {
@@ -294,7 +295,8 @@ InferenceTermination Gibbs<GM, ACC>::infer(
             variableIndex = randomVariable();
          }
          else if(this->parameter_.variableProposal_ == Parameter::CYCLIC) {
-            variableIndex < gm_.numberOfVariables() - 1 ? ++variableIndex : variableIndex = 0;
+            cyclicIndex < gm_.numberOfVariables() - 1 ? ++cyclicIndex : cyclicIndex = 0;
+            variableIndex = cyclicIndex;
          }
 
          // draw label
@@ -347,7 +349,8 @@ InferenceTermination Gibbs<GM, ACC>::infer(
             variableIndex = randomVariable();
          }
          else if(this->parameter_.variableProposal_ == Parameter::CYCLIC) {
-            variableIndex < gm_.numberOfVariables() - 1 ? ++variableIndex : variableIndex = 0;
+            cyclicIndex < gm_.numberOfVariables() - 1 ? ++cyclicIndex : cyclicIndex = 0;
+            variableIndex = cyclicIndex;
          }
 
          // draw label
-- 
2.43.0


From 7b334f72aec94b52610c4a7441dd05fba320b67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 167/224] fix: Gibbs ignored a visitor that asked to stop

---
 include/opengm/inference/gibbs.hxx | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index 4a540de..7943dce 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -285,10 +285,11 @@ InferenceTermination Gibbs<GM, ACC>::infer(
    visitor.begin(*this);
    opengm::RandomUniform<size_t> randomVariable(0, gm_.numberOfVariables());
    opengm::RandomUniform<ProbabilityType> randomProb(0, 1);
+   bool stop = false;
    size_t cyclicIndex = gm_.numberOfVariables() - 1; // the first cyclic proposal is variable 0
    
    if(parameter_.useTemp_==false){
-      for(size_t iteration = 0; iteration < parameter_.maxNumberOfSamplingSteps_ + parameter_.numberOfBurnInSteps_; ++iteration) {
+      for(size_t iteration = 0; !stop && iteration < parameter_.maxNumberOfSamplingSteps_ + parameter_.numberOfBurnInSteps_; ++iteration) {
          // select variable
          size_t variableIndex = 0;
          if(this->parameter_.variableProposal_ == Parameter::RANDOM) {
@@ -318,7 +319,7 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                      currentBestState_[k] = movemaker_.state(k);
                   }
                }
-               visitor(*this);
+               stop = visitor(*this) != visitors::VisitorReturnFlag::ContinueInf;
                //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
             }
             else {
@@ -329,11 +330,11 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                if(randomProb() < pFlip) {
                   movemaker_.move(&variableIndex, &variableIndex + 1, &label); 
                   lastMoveAccepted_ = true;
-                  visitor(*this);
+                  stop = visitor(*this) != visitors::VisitorReturnFlag::ContinueInf;
                   //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
                }
                else {
-                  visitor(*this);
+                  stop = visitor(*this) != visitors::VisitorReturnFlag::ContinueInf;
                  // visitor(*this, newValue, currentBestValue_, iteration, false, burningIn);
                }
             }
@@ -342,7 +343,7 @@ InferenceTermination Gibbs<GM, ACC>::infer(
       }
    }
    else {
-      for(size_t iteration = 0; iteration < parameter_.maxNumberOfSamplingSteps_ + parameter_.numberOfBurnInSteps_; ++iteration) {
+      for(size_t iteration = 0; !stop && iteration < parameter_.maxNumberOfSamplingSteps_ + parameter_.numberOfBurnInSteps_; ++iteration) {
          // select variable
          size_t variableIndex = 0;
          if(this->parameter_.variableProposal_ == Parameter::RANDOM) {
@@ -372,7 +373,7 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                      currentBestState_[k] = movemaker_.state(k);
                   }
                }
-               visitor(*this);
+               stop = visitor(*this) != visitors::VisitorReturnFlag::ContinueInf;
                //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
             }
             else {
@@ -384,12 +385,12 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                   //std::cout<<"temp="<<this->getTemperature(iteration)<<"\n";
                   movemaker_.move(&variableIndex, &variableIndex + 1, &label); 
                   lastMoveAccepted_ = true;
-                  visitor(*this);
+                  stop = visitor(*this) != visitors::VisitorReturnFlag::ContinueInf;
                   //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
                }
                else {
                   //std::cout<<"temp="<<this->getTemperature(iteration)<<"\n";
-                  visitor(*this);
+                  stop = visitor(*this) != visitors::VisitorReturnFlag::ContinueInf;
                   //visitor(*this, newValue, currentBestValue_, iteration, false, burningIn);
                }
             }
-- 
2.43.0


From c19c97eba861d8ffd5d1d8414578675b89075635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 168/224] fix: Gibbs divided by zero on models without
 variables

---
 include/opengm/inference/gibbs.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index 7943dce..4921a91 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -285,7 +285,7 @@ InferenceTermination Gibbs<GM, ACC>::infer(
    visitor.begin(*this);
    opengm::RandomUniform<size_t> randomVariable(0, gm_.numberOfVariables());
    opengm::RandomUniform<ProbabilityType> randomProb(0, 1);
-   bool stop = false;
+   bool stop = gm_.numberOfVariables() == 0; // nothing to sample
    size_t cyclicIndex = gm_.numberOfVariables() - 1; // the first cyclic proposal is variable 0
    
    if(parameter_.useTemp_==false){
-- 
2.43.0


From e9cb1efc89c343bec4ca7579a959f73de6defe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:58 +0000
Subject: [PATCH 169/224] fix: fusion with a solver that gives no answer
 returned the value of one labeling with the labels of the other

---
 include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx b/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx
index 0d0f10d..3ed302e 100644
--- a/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx
+++ b/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx
@@ -918,6 +918,7 @@ FusionMover<GM, ACC>::fuse(
     }
     else{
        valueResult_ = valueBest_;
+       std::copy(argBest_->begin(), argBest_->end(), argResult_->begin());
     }
     modelProxy.freeModel(); 
     //std::cout<<"done!"<<std::endl;
-- 
2.43.0


From 55f01daa601b435179364c5e674f87f34285a940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:58 +0000
Subject: [PATCH 170/224] fix: Random2Gen proposed label 1 for variables with
 one label

---
 include/opengm/inference/fusion_based_inf.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/fusion_based_inf.hxx b/include/opengm/inference/fusion_based_inf.hxx
index 3ef0c3a..b9a53bd 100644
--- a/include/opengm/inference/fusion_based_inf.hxx
+++ b/include/opengm/inference/fusion_based_inf.hxx
@@ -374,7 +374,7 @@ namespace proposal_gen{
             for (IndexType vi = 0; vi < gm_.numberOfVariables(); ++vi){
                 // draw label
                 opengm::RandomUniform<size_t> randomLabel(0,3,currentStep_+vi);
-                proposal[vi] = std::min(randomLabel(),size_t(1));
+                proposal[vi] = std::min(std::min(randomLabel(),size_t(1)), size_t(gm_.numberOfLabels(vi)-1));
             }
             ++currentStep_;
         }
-- 
2.43.0


From 02aa37f505eeae4e01531f0d6ca36b149e1cc01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:58 +0000
Subject: [PATCH 171/224] fix: UpDownGen proposed labels out of range and
 compared variables with the wrong previous labeling

---
 include/opengm/inference/fusion_based_inf.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/fusion_based_inf.hxx b/include/opengm/inference/fusion_based_inf.hxx
index b9a53bd..eadd81f 100644
--- a/include/opengm/inference/fusion_based_inf.hxx
+++ b/include/opengm/inference/fusion_based_inf.hxx
@@ -179,8 +179,11 @@ namespace proposal_gen{
 
                 const LabelType ol = argBuffer_[vi];   
                 const LabelType cl = current[vi];   
-                
-                std::copy(current.begin(), current.end(), argBuffer_.begin());
+
+                if(numL<2){
+                    proposal[vi] = cl;
+                    continue;
+                }
 
                 // flip direction?
                 if(ol == cl){
@@ -207,6 +210,7 @@ namespace proposal_gen{
                     }
                 }
             }
+            std::copy(current.begin(), current.end(), argBuffer_.begin());
         } 
     private:
         const GM &gm_;
-- 
2.43.0


From 9ceaea8ac8a9abff6ae3199ff09fd093c5fcc2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:58 +0000
Subject: [PATCH 172/224] fix: blurred proposals contained labels out of range

---
 include/opengm/inference/fusion_based_inf.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/fusion_based_inf.hxx b/include/opengm/inference/fusion_based_inf.hxx
index eadd81f..0d62fb3 100644
--- a/include/opengm/inference/fusion_based_inf.hxx
+++ b/include/opengm/inference/fusion_based_inf.hxx
@@ -620,7 +620,7 @@ namespace proposal_gen{
               proposal.resize(gm_.numberOfVariables(),0.0);
               opengm::RandomUniform<double> randomLabel(-param_.sigma_*1.5, param_.sigma_*1.5,currentStep_);
               for(size_t i=0; i<proposal.size();++i){
-                 proposal[i] = std::min(gm_.numberOfLabels(i), (LabelType)(std::max(0.0,bluredLabel_[i] + randomLabel())));
+                 proposal[i] = (LabelType)(std::min(double(gm_.numberOfLabels(i)-1), std::max(0.0,bluredLabel_[i] + randomLabel())));
               }
            }
            ++currentStep_;
@@ -773,7 +773,7 @@ namespace proposal_gen{
                 uniformGens_.reserve(bluredOpt.size());
                 for(size_t var=0 ; var<bluredOpt.size(); ++var){
                    LabelType minVal = (LabelType)(std::max((double)(0)         , bluredOpt[var]-param_.sigma_*1.5));
-                   LabelType maxVal = (LabelType)(std::min((double)(numLabels) , bluredOpt[var]+param_.sigma_*1.5));
+                   LabelType maxVal = (LabelType)(std::min((double)(numLabels-1) , bluredOpt[var]+param_.sigma_*1.5));
                    uniformGens_[var] = opengm::RandomUniform<LabelType>(minVal, maxVal+1, var);
                 }
              }   
-- 
2.43.0


From 1c0cd4c14cd5086a0412390814a8801bc8f0a779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:58 +0000
Subject: [PATCH 173/224] fix: EnergyBlurGen wrote its random generators past
 the end of empty vectors

---
 include/opengm/inference/fusion_based_inf.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/fusion_based_inf.hxx b/include/opengm/inference/fusion_based_inf.hxx
index 0d62fb3..8a28c2d 100644
--- a/include/opengm/inference/fusion_based_inf.hxx
+++ b/include/opengm/inference/fusion_based_inf.hxx
@@ -758,7 +758,7 @@ namespace proposal_gen{
                 }
              } 
              if(param_.useLocalMargs_){
-                localMargGens_.reserve(bluredOpt.size());
+                localMargGens_.resize(bluredOpt.size());
                 for(size_t var=0 ; var<bluredOpt.size(); ++var){
                    const ValueType minValue = *std::min_element(margs[var].begin(),margs[var].end());
                    for(LabelType l=0; l<numLabels; ++l){
@@ -770,7 +770,7 @@ namespace proposal_gen{
                    localMargGens_[var]=opengm::RandomDiscreteWeighted<LabelType,ValueType>(margs[var].begin(),margs[var].end(),var);  
                 }
              }else{
-                uniformGens_.reserve(bluredOpt.size());
+                uniformGens_.resize(bluredOpt.size());
                 for(size_t var=0 ; var<bluredOpt.size(); ++var){
                    LabelType minVal = (LabelType)(std::max((double)(0)         , bluredOpt[var]-param_.sigma_*1.5));
                    LabelType maxVal = (LabelType)(std::min((double)(numLabels-1) , bluredOpt[var]+param_.sigma_*1.5));
-- 
2.43.0


From 3c505662bc19cea33ea236797b49efeffe2bae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:58 +0000
Subject: [PATCH 174/224] fix: blur generators used an uninitialised grid
 height for models that are not a grid

---
 include/opengm/inference/fusion_based_inf.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opengm/inference/fusion_based_inf.hxx b/include/opengm/inference/fusion_based_inf.hxx
index 8a28c2d..8036e38 100644
--- a/include/opengm/inference/fusion_based_inf.hxx
+++ b/include/opengm/inference/fusion_based_inf.hxx
@@ -547,6 +547,7 @@ namespace proposal_gen{
               kernel_[kradius-i] /= sum;
            }
 
+           height_ = gm_.numberOfVariables();
            size_t N = gm_.numberOfFactors(0);
            for(size_t i=1; i<gm_.numberOfVariables(); ++i){
               if(N==gm_.numberOfFactors(i)){
@@ -677,6 +678,7 @@ namespace proposal_gen{
                 kernel[kradius-i] /= sum;
              }
 
+             height_ = gm_.numberOfVariables();
              size_t N = gm_.numberOfFactors(0);
              for(size_t i=1; i<gm_.numberOfVariables(); ++i){
                 if(N==gm_.numberOfFactors(i)){
-- 
2.43.0


From 5379f898dee3ae1293e02959deefc7a68bb94129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:58 +0000
Subject: [PATCH 175/224] fix: DynamincGen used generators it never created

---
 include/opengm/inference/fusion_based_inf.hxx | 45 ++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/fusion_based_inf.hxx b/include/opengm/inference/fusion_based_inf.hxx
index 8036e38..100efe3 100644
--- a/include/opengm/inference/fusion_based_inf.hxx
+++ b/include/opengm/inference/fusion_based_inf.hxx
@@ -838,13 +838,53 @@ namespace proposal_gen{
         };
 
         struct Parameter{
+            Parameter(const GeneratorType gen = AlphaExpansion)
+            : gen_(gen){
+            }
             GeneratorType gen_;
         };
 
         DynamincGen(const GM & gm, const Parameter & param)
         : 
             gm_(gm),
-            param_(param){
+            param_(param),
+            alphaExpansionGen_(NULL),
+            alphaBetaSwapGen_(NULL),
+            upDownGen_(NULL),
+            randomGen_(NULL),
+            randomLFGen_(NULL),
+            nonUniformRandomGen_(NULL),
+            blurGen_(NULL),
+            energyBlurGen_(NULL){
+            if(param_.gen_ == AlphaExpansion)
+                alphaExpansionGen_ = new AlphaExpansionGen<GM, ACC>(gm_, typename AlphaExpansionGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == AlphaBetaSwap)
+                alphaBetaSwapGen_ = new AlphaBetaSwapGen<GM, ACC>(gm_, typename AlphaBetaSwapGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == UpDown)
+                upDownGen_ = new UpDownGen<GM, ACC>(gm_, typename UpDownGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == Random)
+                randomGen_ = new RandomGen<GM, ACC>(gm_, typename RandomGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == RandomLF)
+                randomLFGen_ = new RandomLFGen<GM, ACC>(gm_, typename RandomLFGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == NonUniformRandom)
+                nonUniformRandomGen_ = new NonUniformRandomGen<GM, ACC>(gm_, typename NonUniformRandomGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == Blur)
+                blurGen_ = new BlurGen<GM, ACC>(gm_, typename BlurGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == EnergyBlur)
+                energyBlurGen_ = new EnergyBlurGen<GM, ACC>(gm_, typename EnergyBlurGen<GM, ACC>::Parameter());
+            else
+                throw RuntimeError("unknown generator type");
+        }
+
+        ~DynamincGen(){
+            delete alphaExpansionGen_;
+            delete alphaBetaSwapGen_;
+            delete upDownGen_;
+            delete randomGen_;
+            delete randomLFGen_;
+            delete nonUniformRandomGen_;
+            delete blurGen_;
+            delete energyBlurGen_;
         }
 
         void reset(){
@@ -923,6 +963,9 @@ namespace proposal_gen{
         NonUniformRandomGen<GM, ACC> * nonUniformRandomGen_;
         BlurGen<GM, ACC> *             blurGen_;
         EnergyBlurGen<GM, ACC> *       energyBlurGen_;
+
+        DynamincGen(const DynamincGen &);
+        DynamincGen & operator=(const DynamincGen &);
     };
 
 
-- 
2.43.0


From 7b6f4a56788602979ee7b1131d81d2ee621fc7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 176/224] fix: SelfFusion paired the value of the first
 proposal with an all zero labeling

---
 include/opengm/inference/self_fusion.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/opengm/inference/self_fusion.hxx b/include/opengm/inference/self_fusion.hxx
index 9e7e9ea..997f726 100644
--- a/include/opengm/inference/self_fusion.hxx
+++ b/include/opengm/inference/self_fusion.hxx
@@ -111,10 +111,10 @@ struct FusionVisitor{
         ValueType oldValue = value_;
 
         if(iteration_==0 ){         
-            inference.arg(argBest_);
+            inference.arg(argFromInf_);
             ValueType value = inference.value();
             if(AccumulationType::bop(value,value_)){
-               std::copy(argOut_.begin(),argOut_.end(),argBest_.begin());
+               std::copy(argFromInf_.begin(),argFromInf_.end(),argBest_.begin());
                value_ = value;
             }
             returnFlag_ =   selfFusionVisitor_(selfFusion_);
@@ -413,7 +413,8 @@ SelfFusion<INFERENCE>::SelfFusion
    value_(),
    maxOrder_(gm.factorOrder())
 {
-    AccumulationType::neutral(value_);
+    value_ = gm_.evaluate(argBest_.begin());
+    AccumulationType::ineutral(bound_);
 }
       
 
@@ -459,7 +460,6 @@ InferenceTermination SelfFusion<INFERENCE>::infer
 )
 {
    AccumulationType::ineutral(bound_);
-   AccumulationType::neutral(value_);
 
    visitor.begin(*this);
    visitor.addLog("infValue");
-- 
2.43.0


From 3cddc5e106e54cb5afda20537ee067c369da76b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 177/224] fix: SelfFusion ignored its starting point

---
 include/opengm/inference/self_fusion.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/self_fusion.hxx b/include/opengm/inference/self_fusion.hxx
index 997f726..00a7e0c 100644
--- a/include/opengm/inference/self_fusion.hxx
+++ b/include/opengm/inference/self_fusion.hxx
@@ -425,7 +425,8 @@ SelfFusion<INFERENCE>::setStartingPoint
 (
    typename std::vector<typename SelfFusion<INFERENCE>::LabelType>::const_iterator begin
 ) {
-
+   std::copy(begin, begin + gm_.numberOfVariables(), argBest_.begin());
+   value_ = gm_.evaluate(argBest_.begin());
 }
    
 template<class INFERENCE>
-- 
2.43.0


From 554db278cadb40dbd4a1a0b7d573a59cbf458fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 178/224] fix: EdgeDecomposition did not reject factors of
 unsupported order

---
 include/opengm/inference/trws/trws_decomposition.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/trws_decomposition.hxx b/include/opengm/inference/trws/trws_decomposition.hxx
index 2f282f0..90d9933 100644
--- a/include/opengm/inference/trws/trws_decomposition.hxx
+++ b/include/opengm/inference/trws/trws_decomposition.hxx
@@ -142,7 +142,7 @@ public:
 		{
 			if (gm[fId].numberOfVariables()==1) continue;
 			if ((gm[fId].numberOfVariables()>2) || (gm[fId].numberOfVariables()==0))
-				std::runtime_error("EdgeDecomposition<GM>::EdgeDecomposition(): Only factors of order 1 or 2 are supported!");
+				throw std::runtime_error("EdgeDecomposition<GM>::EdgeDecomposition(): Only factors of order 1 or 2 are supported!");
 
 			//factor of order 2:
 			parent::_variableLists[pwFid][0]=gm[fId].variableIndex(0);
-- 
2.43.0


From 62ef6c55da373aa53992a70f748bae3838dabd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 179/224] fix: EdgeDecomposition lost variables without
 pairwise factors

---
 include/opengm/inference/trws/trws_decomposition.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/trws/trws_decomposition.hxx b/include/opengm/inference/trws/trws_decomposition.hxx
index 90d9933..81a80cb 100644
--- a/include/opengm/inference/trws/trws_decomposition.hxx
+++ b/include/opengm/inference/trws/trws_decomposition.hxx
@@ -150,6 +150,7 @@ public:
 			parent::_pwFactorLists[pwFid][0]=fId;
 			++pwFid;
 		}
+		parent::CheckForIsolatedNodes(gm);
 	}
 };
 
-- 
2.43.0


From d2d826fdfecb42b56522a9121a9af3bfac36720e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 180/224] fix: GridDecomposition used uninitialized sizes and
 ignored surplus factors

---
 include/opengm/inference/trws/trws_decomposition.hxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/trws_decomposition.hxx b/include/opengm/inference/trws/trws_decomposition.hxx
index 81a80cb..e77c8e3 100644
--- a/include/opengm/inference/trws/trws_decomposition.hxx
+++ b/include/opengm/inference/trws/trws_decomposition.hxx
@@ -238,7 +238,9 @@ void GridDecomposition<GM>::_computeGridSizes()
 {
 	IndexType numberOfVars=parent::_gm.numberOfVariables();
 	IndexType numTotal=parent::_gm.numberOfFactors();
-	std::vector<IndexType> ind;
+	//a single row, unless a vertical pairwise factor is found
+	_xsize=numberOfVars;
+	_ysize=1;
 	for (IndexType f=numberOfVars;f<numTotal;++f)
 	{
 		std::vector<IndexType> ind(parent::_gm[f].numberOfVariables());
@@ -270,6 +272,8 @@ template<class GM>
 void GridDecomposition<GM>::_CheckGridModel()
 {
 	bool incorrect=false;
+	if (parent::_gm.numberOfVariables()==0 || parent::_gm.numberOfFactors()!=_xysize()+(_xsize-1)*_ysize+_xsize*(_ysize-1))
+		throw std::runtime_error("GridDecomposition::_CheckGridModel():Incorrect grid structure!");
 	//check vertical structure
 	for (IndexType y=0;y<_ysize;++y)
 	 for (IndexType x=0;x<_xsize;++x)
-- 
2.43.0


From e58d53b878b8651bade26ff3af9d118c1507d7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 181/224] fix: MonotoneChainsDecomposition read the variable
 indices of constant factors

---
 include/opengm/inference/trws/trws_decomposition.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/trws_decomposition.hxx b/include/opengm/inference/trws/trws_decomposition.hxx
index e77c8e3..8b3235d 100644
--- a/include/opengm/inference/trws/trws_decomposition.hxx
+++ b/include/opengm/inference/trws/trws_decomposition.hxx
@@ -324,7 +324,7 @@ void Decomposition<GM>::_CreateNodeList(const GM & gm,NodeList* pnodeList)
 	varList.resize(gm.numberOfVariables());
 	for (IndexType factorId=0;factorId<gm.numberOfFactors();++factorId)
 	{
-		if (gm[factorId].numberOfVariables()>2)
+		if (gm[factorId].numberOfVariables()>2 || gm[factorId].numberOfVariables()==0)
 			throw std::runtime_error("CreateEdgeList(): Only factors up to order 2 are supported!");
 
 		if (gm[factorId].numberOfVariables()==1) continue;
-- 
2.43.0


From 1434d0b40efedfc9cceab2afe2f7c2ebc1ed2ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 182/224] fix: TRWS solvers reported a value that is not that
 of their initial labeling

---
 include/opengm/inference/trws/trws_base.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/trws/trws_base.hxx b/include/opengm/inference/trws/trws_base.hxx
index facdcba..110602d 100644
--- a/include/opengm/inference/trws/trws_base.hxx
+++ b/include/opengm/inference/trws/trws_base.hxx
@@ -558,6 +558,7 @@ _sumMarginal()
 #ifdef TRWS_DEBUG_OUTPUT
 	_fout.precision(16);
 #endif
+	_bestIntegerBound=_storage.masterModel().evaluate(_bestIntegerLabeling.begin());
 	_InitSubSolvers();
 	_marginals.resize(_storage.numberOfModels());
 #ifdef TRWS_DEBUG_OUTPUT
-- 
2.43.0


From 4c296980096303d9ecb9fac3408613debc167a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:44 +0000
Subject: [PATCH 183/224] fix: TRWS_Reparametrizer took label counts from a
 variable of the same local index

---
 include/opengm/inference/trws/trws_reparametrization.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/trws_reparametrization.hxx b/include/opengm/inference/trws/trws_reparametrization.hxx
index 4305d6b..4762da6 100644
--- a/include/opengm/inference/trws/trws_reparametrization.hxx
+++ b/include/opengm/inference/trws/trws_reparametrization.hxx
@@ -423,7 +423,7 @@ void TRWS_Reparametrizer<Storage,ACC>::reparametrize(const ImmovableLabelingType
 			  {
 				  IndexType otherVarID=(localVarID==0 ? 1 : 0);
 				  labeling[localVarID]=it.first-it_begin;
-				  for (LabelType label=0;label<gm.numberOfLabels(otherVarID);++label)
+				  for (LabelType label=0;label<gm[factorID].numberOfLabels(otherVarID);++label)
 				  {
 					  labeling[otherVarID]=label;
 
-- 
2.43.0


From f7d6669b82f09efcd4739c89db19137accbf3a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:15 +0000
Subject: [PATCH 184/224] fix: TRWS solvers aborted on models of negative value
 solved without a duality gap

---
 include/opengm/inference/trws/trws_base.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/trws_base.hxx b/include/opengm/inference/trws/trws_base.hxx
index 110602d..29c9d8a 100644
--- a/include/opengm/inference/trws/trws_base.hxx
+++ b/include/opengm/inference/trws/trws_base.hxx
@@ -583,7 +583,8 @@ void TRWSPrototype<SubSolver>::_InitSubSolvers()
 template <class SubSolver>
 bool TRWSPrototype<SubSolver>::CheckDualityGap(ValueType primalBound,ValueType dualBound)
 {
-	OPENGM_ASSERT((ACC::bop(-1,1) ? 1 : -1 )*(primalBound-dualBound) >  -dualBound*std::numeric_limits<ValueType>::epsilon());
+	//the bounds may cross by round-off only
+	OPENGM_ASSERT((ACC::bop(-1,1) ? 1 : -1 )*(primalBound-dualBound) >= -(1+fabs(dualBound))*sqrt(std::numeric_limits<ValueType>::epsilon()));
 
 //	_fout << "(ACC::bop(-1,1) ? 1 : -1 )*(primalBound-dualBound)=" << (ACC::bop(-1,1) ? 1 : -1 )*(primalBound-dualBound)
 //			<< ", -dualBound*std::numeric_limits<ValueType>::epsilon()=" << -dualBound*std::numeric_limits<ValueType>::epsilon()<<std::endl;
-- 
2.43.0


From 9ee4fc8c8575770c642e76733d5c7d2d93bbe6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:49 +0000
Subject: [PATCH 185/224] fix: smoothing based solvers reported a value that is
 not that of their initial labeling

---
 .../inference/trws/smoothing_strategy.hxx     | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/opengm/inference/trws/smoothing_strategy.hxx b/include/opengm/inference/trws/smoothing_strategy.hxx
index 4ce5e8d..7b34cd3 100644
--- a/include/opengm/inference/trws/smoothing_strategy.hxx
+++ b/include/opengm/inference/trws/smoothing_strategy.hxx
@@ -562,6 +562,8 @@ public:
 	  _bestIntegerBound(ACC::template neutral<ValueType>()),
 	  _bestIntegerLabeling(_storage.masterModel().numberOfVariables(),0.0)
 	  {
+		  _bestIntegerBound=gm.evaluate(_bestIntegerLabeling.begin());
+
 		  ValueType smoothingMultiplier=SmoothingStrategyType::ComputeSmoothingMultiplier(_storage);
 
 		  if ( (param.smoothingStrategy()==Parameter::SmoothingParametersType::WC_PRECISIONORIENTED)  ||
@@ -753,15 +755,16 @@ template<class GM,class ACC>
 void SmoothingBasedInference<GM,ACC>::_SelectOptimalBoundsAndLabeling()
 {
 	//Best integer bound...
-	if (ACC::bop(_sumprodsolver.value(),_maxsumsolver.value()))
-		{
+	if (ACC::bop(_sumprodsolver.value(),_bestIntegerBound))
+	{
 		_bestIntegerLabeling=_sumprodsolver.arg();
-		 _bestIntegerBound=_sumprodsolver.value();
-		}else
-		{
-		 _bestIntegerLabeling=_maxsumsolver.arg();
-		 _bestIntegerBound=_maxsumsolver.value();
-		}
+		_bestIntegerBound=_sumprodsolver.value();
+	}
+	if (ACC::bop(_maxsumsolver.value(),_bestIntegerBound))
+	{
+		_bestIntegerLabeling=_maxsumsolver.arg();
+		_bestIntegerBound=_maxsumsolver.value();
+	}
 
 	//Best primalBound
 	ACC::op(_bestPrimalLPbound,_bestIntegerBound,_bestPrimalBound);
-- 
2.43.0


From b8c60ef3a76085efa1baaef2cbf07cbe5388959d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:43 +0000
Subject: [PATCH 186/224] fix: smoothing based solvers reported the last
 instead of the best dual bound

---
 include/opengm/inference/trws/smoothing_strategy.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/trws/smoothing_strategy.hxx b/include/opengm/inference/trws/smoothing_strategy.hxx
index 7b34cd3..8ff2e82 100644
--- a/include/opengm/inference/trws/smoothing_strategy.hxx
+++ b/include/opengm/inference/trws/smoothing_strategy.hxx
@@ -773,9 +773,9 @@ void SmoothingBasedInference<GM,ACC>::_SelectOptimalBoundsAndLabeling()
 #endif
 
 	//Best dual bound...
-	if (ACC::ibop(_sumprodsolver.bound(),_maxsumsolver.bound()))
+	if (ACC::ibop(_sumprodsolver.bound(),_bestDualBound))
 		 _bestDualBound=_sumprodsolver.bound();
-	else
+	if (ACC::ibop(_maxsumsolver.bound(),_bestDualBound))
 		 _bestDualBound=_maxsumsolver.bound();
 
 }
-- 
2.43.0


From aea8a93d72b0882b69e281bbb347b881d0ea340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:43 +0000
Subject: [PATCH 187/224] fix: NesterovAcceleratedGradient did not call end of
 the visitor when solved at once

---
 include/opengm/inference/trws/smooth_nesterov.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opengm/inference/trws/smooth_nesterov.hxx b/include/opengm/inference/trws/smooth_nesterov.hxx
index b135cf6..a30edf5 100644
--- a/include/opengm/inference/trws/smooth_nesterov.hxx
+++ b/include/opengm/inference/trws/smooth_nesterov.hxx
@@ -293,6 +293,10 @@ InferenceTermination NesterovAcceleratedGradient<GM,ACC>::infer(VISITOR & vis)
 		parent::_fout << "NesterovAcceleratedGradient::_CheckStoppingCondition(): Precision attained! Problem solved!"<<std::endl;
 	#endif
 
+		 visitor();
+		 visitor.log("oracleCalls",(double)counter);
+		 visitor.log("primalLPbound",(double)parent::_bestPrimalLPbound);
+		 visitor.end();
 		 return NORMAL;
 	}
 
-- 
2.43.0


From af84155dd0ad24381cf5c9b06662b65477ab7809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:43 +0000
Subject: [PATCH 188/224] fix: NesterovAcceleratedGradient did not throw the
 exception for an unknown step size rule

---
 include/opengm/inference/trws/smooth_nesterov.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/smooth_nesterov.hxx b/include/opengm/inference/trws/smooth_nesterov.hxx
index a30edf5..c46d492 100644
--- a/include/opengm/inference/trws/smooth_nesterov.hxx
+++ b/include/opengm/inference/trws/smooth_nesterov.hxx
@@ -376,7 +376,7 @@ InferenceTermination NesterovAcceleratedGradient<GM,ACC>::infer(VISITOR & vis)
 			_GradientStep(gradient,y,lambda,mul/omega);
 			break;
 		default:
-			std::runtime_error("NesterovAcceleratedGradient::infer():Error! Unknown value of the step size selector _parameters.gradientStep_.");
+			throw std::runtime_error("NesterovAcceleratedGradient::infer():Error! Unknown value of the step size selector _parameters.gradientStep_.");
 			break;
 		}//switch
 
-- 
2.43.0


From 5a10c112668ad1cd3883893b8f89c550389cac38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:43 +0000
Subject: [PATCH 189/224] fix: NesterovAcceleratedGradient stepped in the wrong
 direction for maximization

---
 include/opengm/inference/trws/smooth_nesterov.hxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/opengm/inference/trws/smooth_nesterov.hxx b/include/opengm/inference/trws/smooth_nesterov.hxx
index c46d492..5417889 100644
--- a/include/opengm/inference/trws/smooth_nesterov.hxx
+++ b/include/opengm/inference/trws/smooth_nesterov.hxx
@@ -329,7 +329,7 @@ InferenceTermination NesterovAcceleratedGradient<GM,ACC>::infer(VISITOR & vis)
 //===================== begin of internal loop ===========================================
 		for (size_t j=0;j<_parameters.numberOfInternalIterations();++j)
 		{
-		ValueType mul=1.0;
+		ValueType mul; ACC::iop(-1.0,1.0,mul);
 
 		counter+=2; ValueType oldObjVal=_evaluateGradient(y,&gradient);
 #ifdef TRWS_DEBUG_OUTPUT
@@ -348,7 +348,6 @@ InferenceTermination NesterovAcceleratedGradient<GM,ACC>::infer(VISITOR & vis)
 		do
 		{
     		omega*=2.0;
-			ACC::iop(-1.0,1.0,mul);
 			_GradientStep(gradient,y,lambda,mul/omega);//!>lambda=y+gradient/omega; plus/minus depending on ACC
 
 			//newObjVal=_evaluateSmoothObjective(lambda,((j+1)==_parameters.numberOfInternalIterations()));
-- 
2.43.0


From 08c3d11ca1b2a36cd71d3f202fe81fb05d4c6096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:43 +0000
Subject: [PATCH 190/224] fix: NesterovAcceleratedGradient used an
 uninitialized smoothing derivative with fixed step sizes

---
 include/opengm/inference/trws/smooth_nesterov.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opengm/inference/trws/smooth_nesterov.hxx b/include/opengm/inference/trws/smooth_nesterov.hxx
index 5417889..8d7c16d 100644
--- a/include/opengm/inference/trws/smooth_nesterov.hxx
+++ b/include/opengm/inference/trws/smooth_nesterov.hxx
@@ -368,11 +368,15 @@ InferenceTermination NesterovAcceleratedGradient<GM,ACC>::infer(VISITOR & vis)
 		case Parameter::WC_STEP:
 			omega=doubledLipschitzConstant/2.0;
 			_GradientStep(gradient,y,lambda,mul/omega);
+			++counter; _evaluateSmoothObjective(lambda);
+			++counter; parent::_sumprodsolver.GetMarginalsAndDerivativeMove();
 			break;
 
 		case Parameter::JOJIC_STEP:
 			omega=1.0/parent::_sumprodsolver.GetSmoothing();
 			_GradientStep(gradient,y,lambda,mul/omega);
+			++counter; _evaluateSmoothObjective(lambda);
+			++counter; parent::_sumprodsolver.GetMarginalsAndDerivativeMove();
 			break;
 		default:
 			throw std::runtime_error("NesterovAcceleratedGradient::infer():Error! Unknown value of the step size selector _parameters.gradientStep_.");
-- 
2.43.0


From b42bf572b61075c12e74215cfb65ce1ca51e666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:44 +0000
Subject: [PATCH 191/224] fix: NesterovAcceleratedGradient divided by zero when
 the step size parameter underflowed

---
 include/opengm/inference/trws/smooth_nesterov.hxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/trws/smooth_nesterov.hxx b/include/opengm/inference/trws/smooth_nesterov.hxx
index 8d7c16d..ac1bb23 100644
--- a/include/opengm/inference/trws/smooth_nesterov.hxx
+++ b/include/opengm/inference/trws/smooth_nesterov.hxx
@@ -343,7 +343,7 @@ InferenceTermination NesterovAcceleratedGradient<GM,ACC>::infer(VISITOR & vis)
 		ValueType norm2=std::inner_product(gradient.begin(),gradient.end(),gradient.begin(),(ValueType)0);//squared L2 norm
 		ValueType newObjVal;
 
-		omega/=4.0;
+		omega=std::max((ValueType)(omega/4.0),doubledLipschitzConstant*std::numeric_limits<ValueType>::epsilon());
 
 		do
 		{
@@ -387,8 +387,9 @@ InferenceTermination NesterovAcceleratedGradient<GM,ACC>::infer(VISITOR & vis)
 		if (!_parameters.plainGradient_)
 		{
 			//updating parameters
-			alpha=(sqrt(gamma*gamma+4*omega*gamma)-gamma)/omega/2.0;
-			gamma*=(1-alpha);
+			//numerically stable solution of omega*alpha^2=(1-alpha)*gamma
+			alpha=2.0*gamma/(gamma+sqrt(gamma*gamma+4*omega*gamma));
+			gamma=omega*alpha*alpha;
 			//v+=(alpha/gamma)*gradient;
 			trws_base::transform_inplace(gradient.begin(),gradient.end(),std::bind1st(std::multiplies<ValueType>(),mul*alpha/gamma));//!> plus/minus depending on ACC
 			std::transform(v.begin(),v.end(),gradient.begin(),v.begin(),std::plus<ValueType>());
-- 
2.43.0


From 36757db9463ae74691ba2a4a827d5adabcb59b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:13 +0000
Subject: [PATCH 192/224] fix: NesterovAcceleratedGradient restarted with a
 smoothing of zero when inferred again

---
 include/opengm/inference/trws/smooth_nesterov.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/smooth_nesterov.hxx b/include/opengm/inference/trws/smooth_nesterov.hxx
index ac1bb23..dcc89cb 100644
--- a/include/opengm/inference/trws/smooth_nesterov.hxx
+++ b/include/opengm/inference/trws/smooth_nesterov.hxx
@@ -279,7 +279,7 @@ InferenceTermination NesterovAcceleratedGradient<GM,ACC>::infer(VISITOR & vis)
 	visitor.addLog("oracleCalls");
 	visitor.begin();
 
-	if (parent::_sumprodsolver.GetSmoothing()<=0.0)
+	if (_parameters.startSmoothingValue()<=0.0)
 	{
 
 	parent::_maxsumsolver.ForwardMove();
-- 
2.43.0


From b0780b2cf2c4fa45b7e7fdd77e75352dfd75f476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:13 +0000
Subject: [PATCH 193/224] fix: ADSal ignored a visitor that asked to stop
 during the presolve

---
 .../inference/trws/smoothing_strategy.hxx     | 27 ++++++++++++++++---
 include/opengm/inference/trws/trws_adsal.hxx  |  3 ++-
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/opengm/inference/trws/smoothing_strategy.hxx b/include/opengm/inference/trws/smoothing_strategy.hxx
index 8ff2e82..1edc3e7 100644
--- a/include/opengm/inference/trws/smoothing_strategy.hxx
+++ b/include/opengm/inference/trws/smoothing_strategy.hxx
@@ -515,6 +515,24 @@ public:
 };
 
 //==============================================================
+//remembers whether the visitor asked to stop
+template<class VISITOR>
+class StopRecordingVisitor
+{
+public:
+	StopRecordingVisitor(VISITOR& visitor):_visitor(visitor),_stopped(false){};
+	size_t operator()()
+	{
+		const size_t flag=_visitor();
+		if (flag != visitors::VisitorReturnFlag::ContinueInf) _stopped=true;
+		return flag;
+	}
+	bool stopped()const{return _stopped;}
+private:
+	VISITOR& _visitor;
+	bool _stopped;
+};
+
 template<class GM, class ACC>
 class SmoothingBasedInference : public Inference<GM, ACC>
 {
@@ -643,7 +661,7 @@ public:
 	  }
 protected:
 	  template<class VISITOR>
-	  InferenceTermination _Presolve(VISITOR& visitor,size_t* piterCounter=0);
+	  InferenceTermination _Presolve(VISITOR& visitor,size_t* piterCounter=0,bool* pstopped=0);
 	  template<class VISITOR>
 	  size_t _EstimateStartingSmoothing(VISITOR& visitor);//!> returns number of oracle calls;
 	  bool _UpdateSmoothing(ValueType primalBound,ValueType dualBound, ValueType smoothDualBound, ValueType derivativeValue,size_t iterationCounterPlus1=0);
@@ -782,12 +800,15 @@ void SmoothingBasedInference<GM,ACC>::_SelectOptimalBoundsAndLabeling()
 
 template<class GM,class ACC>
 template<class VISITOR>
-opengm::InferenceTermination SmoothingBasedInference<GM,ACC>::_Presolve(VISITOR& visitor, size_t* piterCounter)
+opengm::InferenceTermination SmoothingBasedInference<GM,ACC>::_Presolve(VISITOR& visitor, size_t* piterCounter, bool* pstopped)
 {
 #ifdef TRWS_DEBUG_OUTPUT
 	 _fout << "Running TRWS presolve..."<<std::endl;
 #endif
-	 return _maxsumsolver.infer_visitor_updates(visitor,piterCounter);
+	 StopRecordingVisitor<VISITOR> recorder(visitor);
+	 const InferenceTermination returncode=_maxsumsolver.infer_visitor_updates(recorder,piterCounter);
+	 if (pstopped!=0) *pstopped=recorder.stopped();
+	 return returncode;
 }
 
 template<class GM,class ACC>
diff --git a/include/opengm/inference/trws/trws_adsal.hxx b/include/opengm/inference/trws/trws_adsal.hxx
index 65335e5..b465954 100644
--- a/include/opengm/inference/trws/trws_adsal.hxx
+++ b/include/opengm/inference/trws/trws_adsal.hxx
@@ -159,7 +159,8 @@ InferenceTermination ADSal<GM,ACC>::infer(VISITOR & vis)
 
 	if (parent::_sumprodsolver.GetSmoothing()<=0.0)
 	{
-		if (parent::_Presolve(visitor, &counter)==CONVERGENCE)
+		bool stopped=false;
+		if (parent::_Presolve(visitor, &counter, &stopped)==CONVERGENCE || stopped)
 		{
 			parent::_SelectOptimalBoundsAndLabeling();
 			visitor();
-- 
2.43.0


From 07774e31f13e0273d6a336d701617d7abb4d9e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:48 +0000
Subject: [PATCH 194/224] fix: Bruteforce reported a value that is not that of
 its labeling before inference

---
 include/opengm/inference/bruteforce.hxx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/opengm/inference/bruteforce.hxx b/include/opengm/inference/bruteforce.hxx
index d0a2ee0..aca0b4f 100644
--- a/include/opengm/inference/bruteforce.hxx
+++ b/include/opengm/inference/bruteforce.hxx
@@ -68,9 +68,8 @@ Bruteforce<GM, AKK>::Bruteforce
 :  gm_(gm),
    movemaker_(Movemaker<GM>(gm)),
    states_(std::vector<typename GM::LabelType>(gm.numberOfVariables() )),
-   energy_(typename Bruteforce<GM, AKK>::ValueType())
+   energy_(movemaker_.value())
 {
-   AKK::neutral(energy_);
 }
 
 template<class GM, class AKK>
@@ -79,7 +78,7 @@ Bruteforce<GM, AKK>::reset()
 {
    movemaker_.reset();
    std::fill(states_.begin(), states_.end(), 0);
-   AKK::neutral(energy_);
+   energy_ = movemaker_.value();
 }
 
 template<class GM, class AKK>
@@ -91,9 +90,8 @@ Bruteforce<GM, AKK>::Bruteforce
 :  gm_(gm),
    movemaker_(Movemaker<GM>(gm)),
    states_(std::vector<typename GM::LabelType>(gm.numberOfVariables())),
-   energy_(typename Bruteforce<GM, AKK>::ValueType())
+   energy_(movemaker_.value())
 {
-   AKK::neutral(energy_);
 }
 
 template<class GM, class AKK>
@@ -110,9 +108,9 @@ Bruteforce<GM, AKK>::infer
        vi[j] = j;
    }
 
-   AccumulationType::neutral(energy_); 
    bool exitInf = false;
    visitor.begin(*this);
+   AccumulationType::neutral(energy_); 
    while(exitInf == false) {
       ValueType energy = movemaker_.move(vi.begin(), vi.end(), states.begin());
       if(AccumulationType::bop(energy , energy_)) {
-- 
2.43.0


From b1c08cbfcddc08bb9d967fb7da667171ba1495e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:52 +0000
Subject: [PATCH 195/224] fix: AStar reported the value of a later labeling as
 its bound when asked for several

---
 include/opengm/inference/astar.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index fc77af2..61e41f1 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -325,13 +325,15 @@ namespace opengm {
          }
          while(array_.front().conf.size() < numNodes_ && exitFlag==0) {
             expand(visitor);
-            belowBound_ = array_.front().value;
+            if(optConf_.empty())
+               belowBound_ = array_.front().value;
             exitFlag = visitor(*this); 
             //visitor(*this, array_.front().conf, array_.size(), array_.front().value, globalBound_, time);
          }
          if(array_.front().conf.size()>=numNodes_){
             ValueType  value = array_.front().value;
-            belowBound_ = value;
+            if(optConf_.empty())
+               belowBound_ = value;
             std::vector<LabelType> conf(numNodes_);
             for(size_t n=0; n<numNodes_; ++n) {
                conf[parameter_.nodeOrder_[n]] = array_.front().conf[n];
-- 
2.43.0


From 0f0a5c752738680cf14b49f84b0e3a685af921e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 196/224] fix: AStar called a visitor again that had asked to
 stop

---
 include/opengm/inference/astar.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index 61e41f1..35d47c8 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -339,7 +339,8 @@ namespace opengm {
                conf[parameter_.nodeOrder_[n]] = array_.front().conf[n];
             } 
             optConf_.push_back(conf);
-            exitFlag = visitor(*this);
+            if(exitFlag==0)
+               exitFlag = visitor(*this);
             if(ACC::bop(parameter_.objectiveBound_, value)) {
                visitor.end(*this);
                return NORMAL;
-- 
2.43.0


From bf48ed9061973477ac087eb78441930e1d5505b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 197/224] fix: SelfFusion ignored a visitor that asked to stop
 at its first call

---
 include/opengm/inference/self_fusion.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/inference/self_fusion.hxx b/include/opengm/inference/self_fusion.hxx
index 00a7e0c..751db28 100644
--- a/include/opengm/inference/self_fusion.hxx
+++ b/include/opengm/inference/self_fusion.hxx
@@ -106,6 +106,9 @@ struct FusionVisitor{
 
     size_t fuseVisit(INF & inference){
 
+        if(returnFlag_ != visitors::VisitorReturnFlag::ContinueInf)
+           return returnFlag_; // the visitor asked to stop before
+
         const typename SelfFusionType::Parameter & param = selfFusion_.parameter();
 
         ValueType oldValue = value_;
-- 
2.43.0


From 60ec829acc3a8aca5f9734167c4d846426a4653c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 198/224] fix: Gibbs showed its current instead of its best
 labeling to the visitor at the end

---
 include/opengm/inference/gibbs.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index 4921a91..8501fd1 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -399,8 +399,8 @@ InferenceTermination Gibbs<GM, ACC>::infer(
       }
    }
    //visitor.end(*this, currentBestValue_, currentBestValue_);
+   inInference_=false; // value and labeling are the best ones from now on
    visitor.end(*this);
-   inInference_=false;
    return NORMAL;
 }
 
-- 
2.43.0


From b55904a713adf17321629c2e7df2040a5a76a54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 199/224] fix: TimingVisitor wrote logged values into the wrong
 step or past the end when not visiting each step

---
 include/opengm/inference/visitors/visitors.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/visitors/visitors.hxx b/include/opengm/inference/visitors/visitors.hxx
index b5443b1..8a8f624 100644
--- a/include/opengm/inference/visitors/visitors.hxx
+++ b/include/opengm/inference/visitors/visitors.hxx
@@ -136,6 +136,7 @@ public:
     iterations_(),
     timer_(),
     iteration_(0),
+    recorded_(false),
     visithNth_(visithNth),
     verbose_(verbose),
     multiline_(multiline),
@@ -196,7 +197,8 @@ public:
 
    size_t operator()(INFERENCE & inf){
 
-      if(iteration_%visithNth_==0){
+      recorded_ = iteration_%visithNth_==0;
+      if(recorded_){
          // stop timer
          timer_.toc();
 
@@ -284,7 +286,8 @@ public:
     extraLogs_.push_back(logName);
   }
   void log(const std::string & logName,const double logValue){
-    if((iteration_)%visithNth_==0){
+    // belongs to the last visited step
+    if(recorded_ && !protocolMap_[logName].empty()){
       timer_.toc();
       if(verbose_){
         std::cout<<logName<<" "<<logValue<<"\n";
@@ -330,6 +333,7 @@ private:
   opengm::Timer timer_;
   opengm::Timer totalTimer_;
   size_t iteration_;
+  bool recorded_; // was the last visited step recorded
   size_t visithNth_;
   bool verbose_;
   bool   multiline_;
-- 
2.43.0


From 99727d264602c9b1d21175728a0457fa51f018ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 200/224] fix: copies of timing visitors wrote into the
 protocol of the original

---
 .../opengm/inference/visitors/visitors.hxx    | 102 +++++++++++++++---
 1 file changed, 90 insertions(+), 12 deletions(-)

diff --git a/include/opengm/inference/visitors/visitors.hxx b/include/opengm/inference/visitors/visitors.hxx
index 8a8f624..8d3c6e9 100644
--- a/include/opengm/inference/visitors/visitors.hxx
+++ b/include/opengm/inference/visitors/visitors.hxx
@@ -145,12 +145,7 @@ public:
     gapLimit_(gapLimit),
     totalTime_(0.0)
   {
-    // allocate all protocolated items
-    ctime_    = & protocolMap_["ctime"]    ;
-    times_      = & protocolMap_["times"]    ;
-    values_     = & protocolMap_["values"]   ;
-    bounds_     = & protocolMap_["bounds"]   ;
-    iterations_ = & protocolMap_["iteration"];
+    setPointers();
 
     // reservations
     if(reserve>0){
@@ -165,6 +160,44 @@ public:
     timer_.tic();
   }
 
+  // the pointers of a copy point to the items of the copy
+  TimingVisitor(const TimingVisitor & other)
+  :
+    protocolMap_(other.protocolMap_),
+    extraLogs_(other.extraLogs_),
+    timer_(other.timer_),
+    totalTimer_(other.totalTimer_),
+    iteration_(other.iteration_),
+    recorded_(other.recorded_),
+    visithNth_(other.visithNth_),
+    verbose_(other.verbose_),
+    multiline_(other.multiline_),
+    memLogging_(other.memLogging_),
+    timeLimit_(other.timeLimit_),
+    gapLimit_(other.gapLimit_),
+    totalTime_(other.totalTime_)
+  {
+    setPointers();
+  }
+
+  TimingVisitor & operator=(const TimingVisitor & other){
+    protocolMap_ = other.protocolMap_;
+    extraLogs_ = other.extraLogs_;
+    timer_ = other.timer_;
+    totalTimer_ = other.totalTimer_;
+    iteration_ = other.iteration_;
+    recorded_ = other.recorded_;
+    visithNth_ = other.visithNth_;
+    verbose_ = other.verbose_;
+    multiline_ = other.multiline_;
+    memLogging_ = other.memLogging_;
+    timeLimit_ = other.timeLimit_;
+    gapLimit_ = other.gapLimit_;
+    totalTime_ = other.totalTime_;
+    setPointers();
+    return *this;
+  }
+
   void begin(INFERENCE & inf){
       // stop timer which measured time from
       // constructor call to this "begin" call
@@ -322,6 +355,14 @@ public:
 
 
 private:
+  // allocate all protocolated items
+  void setPointers(){
+    ctime_    = & protocolMap_["ctime"]    ;
+    times_      = & protocolMap_["times"]    ;
+    values_     = & protocolMap_["values"]   ;
+    bounds_     = & protocolMap_["bounds"]   ;
+    iterations_ = & protocolMap_["iteration"];
+  }
 
   std::map< std::string, std::vector<double  > >  protocolMap_;
   std::vector<std::string> extraLogs_;
@@ -374,12 +415,7 @@ public:
       gapLimit_(gapLimit),
       totalTime_(0.0)
    {
-      // allocate all protocolated items
-      ctime_      = & protocolMap_["ctime"]    ;
-      times_      = & protocolMap_["times"]    ;
-      values_     = & protocolMap_["values"]   ;
-      bounds_     = & protocolMap_["bounds"]   ;
-      iterations_ = & protocolMap_["iteration"];
+      setPointers();
 
       // reservations
       if(reserve>0){
@@ -394,6 +430,40 @@ public:
       timer_.tic();
    }
 
+   // the pointers of a copy point to the items of the copy
+   ExplicitTimingVisitor(const ExplicitTimingVisitor & other)
+   :
+      protocolMap_(other.protocolMap_),
+      timer_(other.timer_),
+      totalTimer_(other.totalTimer_),
+      iteration_(other.iteration_),
+      visithNth_(other.visithNth_),
+      verbose_(other.verbose_),
+      multiline_(other.multiline_),
+      memLogging_(other.memLogging_),
+      timeLimit_(other.timeLimit_),
+      gapLimit_(other.gapLimit_),
+      totalTime_(other.totalTime_)
+   {
+      setPointers();
+   }
+
+   ExplicitTimingVisitor & operator=(const ExplicitTimingVisitor & other){
+      protocolMap_ = other.protocolMap_;
+      timer_ = other.timer_;
+      totalTimer_ = other.totalTimer_;
+      iteration_ = other.iteration_;
+      visithNth_ = other.visithNth_;
+      verbose_ = other.verbose_;
+      multiline_ = other.multiline_;
+      memLogging_ = other.memLogging_;
+      timeLimit_ = other.timeLimit_;
+      gapLimit_ = other.gapLimit_;
+      totalTime_ = other.totalTime_;
+      setPointers();
+      return *this;
+   }
+
    void begin(INFERENCE & inf, const typename INFERENCE::ValueType value, const typename INFERENCE::ValueType bound){
       // stop timer which measured time from
       // constructor call to this "begin" call
@@ -521,6 +591,14 @@ public:
 
 
 private:
+   // allocate all protocolated items
+   void setPointers(){
+      ctime_      = & protocolMap_["ctime"]    ;
+      times_      = & protocolMap_["times"]    ;
+      values_     = & protocolMap_["values"]   ;
+      bounds_     = & protocolMap_["bounds"]   ;
+      iterations_ = & protocolMap_["iteration"];
+   }
 
    std::map< std::string, std::vector<double  > >  protocolMap_;
 
-- 
2.43.0


From 84a1a95c528269a6cdb87188846796586bd5ccb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 201/224] fix: DualDecompositionSubGradient changed the
 precision of the standard output

---
 .../dualdecomposition/dualdecomposition_subgradient.hxx          | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
index 45e7097..6b17c7a 100644
--- a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
+++ b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
@@ -179,7 +179,6 @@ namespace opengm {
    InferenceTermination DualDecompositionSubGradient<GM,INF,DUALBLOCK>::
    infer(VISITOR& visitor) 
    {
-      std::cout.precision(15);
       //visitor.startInference();
       visitor.begin(*this);
           
-- 
2.43.0


From fcf5c71ccdbdf27bdb4f1b66260079915bbc8338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:47 +0000
Subject: [PATCH 202/224] fix: copies of DynamicProgramming shared and freed
 the same buffers

---
 .../opengm/inference/dynamicprogramming.hxx   | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/include/opengm/inference/dynamicprogramming.hxx b/include/opengm/inference/dynamicprogramming.hxx
index 03ad25e..ae7decb 100644
--- a/include/opengm/inference/dynamicprogramming.hxx
+++ b/include/opengm/inference/dynamicprogramming.hxx
@@ -49,6 +49,7 @@ namespace opengm {
     };
 
     DynamicProgramming(const GraphicalModelType&, const Parameter& = Parameter());
+    DynamicProgramming(const DynamicProgramming&);
     ~DynamicProgramming();
 
     std::string name() const;
@@ -69,6 +70,8 @@ namespace opengm {
     MyStateType* stateBuffer_;
     std::vector<MyValueType*> valueBuffers_;
     std::vector<MyStateType*> stateBuffers_;
+    size_t valueBufferSize_;
+    size_t stateBufferSize_;
     std::vector<size_t> nodeOrder_; 
     std::vector<size_t> orderedNodes_;
     bool inferenceStarted_;
@@ -92,6 +95,29 @@ namespace opengm {
     free(valueBuffer_);
     free(stateBuffer_);
   }
+
+  // the copy has buffers of its own
+  template<class GM, class ACC>
+  inline DynamicProgramming<GM, ACC>::DynamicProgramming
+  (
+  const DynamicProgramming<GM, ACC>& other
+  )
+  :  Inference<GM, ACC>(other), gm_(other.gm_), para_(other.para_),
+     valueBuffers_(other.valueBuffers_), stateBuffers_(other.stateBuffers_),
+     valueBufferSize_(other.valueBufferSize_), stateBufferSize_(other.stateBufferSize_),
+     nodeOrder_(other.nodeOrder_), orderedNodes_(other.orderedNodes_), inferenceStarted_(other.inferenceStarted_)
+  {
+    valueBuffer_ = (MyValueType*) malloc(valueBufferSize_*sizeof(MyValueType));
+    stateBuffer_ = (MyStateType*) malloc(stateBufferSize_*sizeof(MyStateType));
+    if(inferenceStarted_){
+      std::copy(other.valueBuffer_, other.valueBuffer_ + valueBufferSize_, valueBuffer_);
+      std::copy(other.stateBuffer_, other.stateBuffer_ + stateBufferSize_, stateBuffer_);
+    }
+    for(size_t i=0; i<valueBuffers_.size(); ++i){
+      valueBuffers_[i] = valueBuffer_ + (other.valueBuffers_[i] - other.valueBuffer_);
+      stateBuffers_[i] = stateBuffer_ + (other.stateBuffers_[i] - other.stateBuffer_);
+    }
+  }
   
   template<class GM, class ACC>
   inline DynamicProgramming<GM, ACC>::DynamicProgramming
@@ -155,6 +181,8 @@ namespace opengm {
       memSizeValue += gm_.numberOfLabels(i);
       memSizeState += gm.numberOfLabels(i) * numChildren[i];
     }
+    valueBufferSize_ = memSizeValue;
+    stateBufferSize_ = memSizeState;
     valueBuffer_ = (MyValueType*) malloc(memSizeValue*sizeof(MyValueType));
     stateBuffer_ = (MyStateType*) malloc(memSizeState*sizeof(MyStateType));
     valueBuffers_.resize(gm_.numberOfVariables());
-- 
2.43.0


From 92cd58090a540a4edfeb1a3f88e8bcf6b8529b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 203/224] fix: copies of FusionBasedInf freed the same fusion
 mover

---
 include/opengm/inference/fusion_based_inf.hxx | 33 ++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/fusion_based_inf.hxx b/include/opengm/inference/fusion_based_inf.hxx
index 100efe3..5ef60f6 100644
--- a/include/opengm/inference/fusion_based_inf.hxx
+++ b/include/opengm/inference/fusion_based_inf.hxx
@@ -876,6 +876,20 @@ namespace proposal_gen{
                 throw RuntimeError("unknown generator type");
         }
 
+        DynamincGen(const DynamincGen & other)
+        :
+            gm_(other.gm_),
+            param_(other.param_),
+            alphaExpansionGen_(other.alphaExpansionGen_ ? new AlphaExpansionGen<GM, ACC>(*other.alphaExpansionGen_) : NULL),
+            alphaBetaSwapGen_(other.alphaBetaSwapGen_ ? new AlphaBetaSwapGen<GM, ACC>(*other.alphaBetaSwapGen_) : NULL),
+            upDownGen_(other.upDownGen_ ? new UpDownGen<GM, ACC>(*other.upDownGen_) : NULL),
+            randomGen_(other.randomGen_ ? new RandomGen<GM, ACC>(*other.randomGen_) : NULL),
+            randomLFGen_(other.randomLFGen_ ? new RandomLFGen<GM, ACC>(*other.randomLFGen_) : NULL),
+            nonUniformRandomGen_(other.nonUniformRandomGen_ ? new NonUniformRandomGen<GM, ACC>(*other.nonUniformRandomGen_) : NULL),
+            blurGen_(other.blurGen_ ? new BlurGen<GM, ACC>(*other.blurGen_) : NULL),
+            energyBlurGen_(other.energyBlurGen_ ? new EnergyBlurGen<GM, ACC>(*other.energyBlurGen_) : NULL){
+        }
+
         ~DynamincGen(){
             delete alphaExpansionGen_;
             delete alphaBetaSwapGen_;
@@ -964,7 +978,6 @@ namespace proposal_gen{
         BlurGen<GM, ACC> *             blurGen_;
         EnergyBlurGen<GM, ACC> *       energyBlurGen_;
 
-        DynamincGen(const DynamincGen &);
         DynamincGen & operator=(const DynamincGen &);
     };
 
@@ -1043,6 +1056,7 @@ public:
 
 
     FusionBasedInf(const GraphicalModelType &, const Parameter & = Parameter() );
+    FusionBasedInf(const FusionBasedInf &);
     ~FusionBasedInf();
     std::string name() const;
     const GraphicalModelType &graphicalModel() const;
@@ -1105,6 +1119,23 @@ FusionBasedInf<GM, PROPOSAL_GEN>::FusionBasedInf
     }
     setStartingPoint(conf.begin());
 }
+// the copy has a fusion mover of its own
+template<class GM, class PROPOSAL_GEN>
+FusionBasedInf<GM, PROPOSAL_GEN>::FusionBasedInf
+(
+    const FusionBasedInf<GM, PROPOSAL_GEN> &other
+)
+    :  Inference<GM, typename PROPOSAL_GEN::AccumulationType>(other),
+       gm_(other.gm_),
+       param_(other.param_),
+       fusionMover_(NULL),
+       proposalGen_(other.proposalGen_),
+       bestValue_(other.bestValue_),
+       bestArg_(other.bestArg_),
+       maxOrder_(other.maxOrder_)
+{
+    fusionMover_ = new FusionMoverType(gm_, param_.fusionParam_);
+}
 template<class GM, class PROPOSAL_GEN>
 FusionBasedInf<GM, PROPOSAL_GEN>::~FusionBasedInf()
 {
-- 
2.43.0


From c599acb6a37fad807a7f4fe3467f52d7bfa74395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 204/224] fix: copies of MessagePassing exchanged messages with
 the original

---
 .../messagepassing/messagepassing.hxx          | 18 ++++++++++++++++++
 .../messagepassing/messagepassing_bp.hxx       | 14 ++++++++++++++
 .../messagepassing/messagepassing_trbp.hxx     | 14 ++++++++++++++
 3 files changed, 46 insertions(+)

diff --git a/include/opengm/inference/messagepassing/messagepassing.hxx b/include/opengm/inference/messagepassing/messagepassing.hxx
index 40f4b01..0a08790 100644
--- a/include/opengm/inference/messagepassing/messagepassing.hxx
+++ b/include/opengm/inference/messagepassing/messagepassing.hxx
@@ -141,6 +141,7 @@ public:
    /// \endcond
 
    MessagePassing(const GraphicalModelType&, const Parameter& = Parameter());
+   MessagePassing(const MessagePassing&);
    std::string name() const;
    const GraphicalModelType& graphicalModel() const;
    InferenceTermination marginal(const size_t, IndependentFactorType& out) const;
@@ -204,6 +205,23 @@ MessagePassing<GM, ACC, UPDATE_RULES, DIST>::MessagePassing
    } 
 }
 
+// the hulls of the copy exchange messages with each other
+template<class GM, class ACC, class UPDATE_RULES, class DIST>
+MessagePassing<GM, ACC, UPDATE_RULES, DIST>::MessagePassing
+(
+   const MessagePassing<GM, ACC, UPDATE_RULES, DIST>& other
+)
+:  Inference<GM, ACC>(other),
+   gm_(other.gm_),
+   parameter_(other.parameter_),
+   factorHulls_(other.factorHulls_),
+   variableHulls_(other.variableHulls_)
+{
+   for (size_t i = 0; i < gm_.numberOfFactors(); i++) {
+      factorHulls_[i].connect(gm_, i, variableHulls_);
+   }
+}
+
 template<class GM, class ACC, class UPDATE_RULES, class DIST>
 void
 MessagePassing<GM, ACC, UPDATE_RULES, DIST>::reset()
diff --git a/include/opengm/inference/messagepassing/messagepassing_bp.hxx b/include/opengm/inference/messagepassing/messagepassing_bp.hxx
index c76d74f..fc6c910 100644
--- a/include/opengm/inference/messagepassing/messagepassing_bp.hxx
+++ b/include/opengm/inference/messagepassing/messagepassing_bp.hxx
@@ -57,6 +57,7 @@ namespace opengm {
   
       size_t numberOfBuffers() const        { return inBuffer_.size(); }
       void assign(const GM&, const size_t, std::vector<VariableHullBP<GM,BUFFER,OP,ACC> >&, const meta::EmptyType*);
+      void connect(const GM&, const size_t, std::vector<VariableHullBP<GM,BUFFER,OP,ACC> >&);
       void propagateAll(const ValueType& = 0, const bool = true);
       void propagate(const size_t, const ValueType& = 0, const bool = true);
       void marginal(IndependentFactorType&, const bool = true) const;
@@ -257,6 +258,19 @@ namespace opengm {
       for(size_t n=0; n<gm.numberOfVariables(factorIndex); ++n) {
          size_t variableIndex = gm.variableOfFactor(factorIndex,n);
          inBuffer_[n].assign(gm.numberOfLabels(variableIndex), OP::template neutral<ValueType > ());
+      }
+      connect(gm, factorIndex, variableHulls);
+   }
+
+   template<class GM, class BUFFER, class OP, class ACC>
+   inline void FactorHullBP<GM, BUFFER, OP, ACC>::connect
+   (
+      const GM& gm,
+      const size_t factorIndex,
+      std::vector<VariableHullBP<GM, BUFFER, OP, ACC> >& variableHulls
+   ) {
+      for(size_t n=0; n<gm.numberOfVariables(factorIndex); ++n) {
+         size_t variableIndex = gm.variableOfFactor(factorIndex,n);
          size_t bufferNumber = 1000000;
          for(size_t i=0; i<gm.numberOfFactors(variableIndex); ++i) {
             if(gm.factorOfVariable(variableIndex,i) == factorIndex) {
diff --git a/include/opengm/inference/messagepassing/messagepassing_trbp.hxx b/include/opengm/inference/messagepassing/messagepassing_trbp.hxx
index 9d16fbb..23bb172 100644
--- a/include/opengm/inference/messagepassing/messagepassing_trbp.hxx
+++ b/include/opengm/inference/messagepassing/messagepassing_trbp.hxx
@@ -57,6 +57,7 @@ namespace opengm {
       size_t numberOfBuffers() const       { return inBuffer_.size(); }
       //size_t variableIndex(size_t i) const { return variableIndices_[i]; }
       void assign(const GM&, const size_t, std::vector<VariableHullTRBP<GM,BUFFER,OP,ACC> >&, const std::vector<ValueType>*);
+      void connect(const GM&, const size_t, std::vector<VariableHullTRBP<GM,BUFFER,OP,ACC> >&);
       void propagateAll(const ValueType& = 0, const bool = true);
       void propagate(const size_t, const ValueType& = 0, const bool = true);
       void marginal(IndependentFactorType&, const bool = true) const; 
@@ -277,6 +278,19 @@ namespace opengm {
       for(size_t n=0; n<gm.numberOfVariables(factorIndex); ++n) {
          size_t var = gm.variableOfFactor(factorIndex,n);
          inBuffer_[n].assign(gm.numberOfLabels(var), OP::template neutral<ValueType > ());
+      }
+      connect(gm, factorIndex, variableHulls);
+   }
+
+   template<class GM, class BUFFER, class OP, class ACC>
+   inline void FactorHullTRBP<GM, BUFFER, OP, ACC>::connect
+   (
+      const GM& gm,
+      const size_t factorIndex,
+      std::vector<VariableHullTRBP<GM, BUFFER, OP, ACC> >& variableHulls
+   ) {
+      for(size_t n=0; n<gm.numberOfVariables(factorIndex); ++n) {
+         size_t var = gm.variableOfFactor(factorIndex,n);
          size_t bufferNumber = 1000000;
          for(size_t i=0; i<gm.numberOfFactors(var); ++i) {
             if(gm.factorOfVariable(var,i)==factorIndex)
-- 
2.43.0


From 7270f5e347ffd8ae9659f7cd12a2b910b81ec8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 205/224] fix: copies of DualDecompositionSubGradient used the
 dual variables of the original

---
 .../dualdecomposition_subgradient.hxx         | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
index 6b17c7a..d501662 100644
--- a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
+++ b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
@@ -82,6 +82,7 @@ namespace opengm {
 
       DualDecompositionSubGradient(const GmType&);
       DualDecompositionSubGradient(const GmType&, const Parameter&);
+      DualDecompositionSubGradient(const DualDecompositionSubGradient&);
       virtual std::string name() const {return "DualDecompositionSubGradient";};
       virtual const GmType& graphicalModel() const {return gm_;};
       virtual InferenceTermination infer();
@@ -138,6 +139,24 @@ namespace opengm {
          subStates_[i].resize(subGm_[i].numberOfVariables());
    }
 
+   // the submodels of the copy refer to the dual variables of the copy
+   template<class GM, class INF, class DUALBLOCK>
+   DualDecompositionSubGradient<GM,INF,DUALBLOCK>::DualDecompositionSubGradient(const DualDecompositionSubGradient<GM,INF,DUALBLOCK>& other)
+      :   Inference<GM,typename INF::AccumulationType>(other), DualDecompositionBase<GmType, DualBlockType >(other.gm_),
+          acUpperBound_(other.acUpperBound_), acNegLowerBound_(other.acNegLowerBound_),
+          upperBound_(other.upperBound_), lowerBound_(other.lowerBound_), values_(other.values_), para_(other.para_)
+   {
+      this->init(para_);
+      for(size_t i=0; i<dualBlocks_.size(); ++i)
+         for(size_t j=0; j<dualBlocks_[i].duals_.size(); ++j)
+            dualBlocks_[i].duals_[j] = other.dualBlocks_[i].duals_[j];
+      subStates_ = other.subStates_;
+      primalTimer_ = other.primalTimer_;
+      dualTimer_ = other.dualTimer_;
+      primalTime_ = other.primalTime_;
+      dualTime_ = other.dualTime_;
+   }
+
 
 ////////////////////////////////////////////////////////////////////
 
-- 
2.43.0


From b6e1cffd455e2d309b1ee0a3dda60a0f499efff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 206/224] fix: copies of GraphCut freed the same max-flow graph

---
 include/opengm/inference/graphcut.hxx | 46 +++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/include/opengm/inference/graphcut.hxx b/include/opengm/inference/graphcut.hxx
index cf85dad..75f5906 100644
--- a/include/opengm/inference/graphcut.hxx
+++ b/include/opengm/inference/graphcut.hxx
@@ -50,6 +50,8 @@ public:
 
    GraphCut(const GraphicalModelType&, const Parameter& = Parameter(), ValueType = static_cast<ValueType>(0.0));
    GraphCut(size_t numVar, std::vector<size_t> numFacDim, const Parameter& = Parameter(), ValueType = static_cast<ValueType>(0.0));
+   GraphCut(const GraphCut&);
+   GraphCut& operator=(const GraphCut&);
    ~GraphCut();
 
    std::string name() const;
@@ -164,6 +166,50 @@ inline GraphCut<GM, ACC, MINSTCUT>::GraphCut
    //std::cout << parameter_.scale_ <<std::endl;
 }
 
+// the copy has a max-flow graph of its own
+template<class GM, class ACC, class MINSTCUT>
+inline GraphCut<GM, ACC, MINSTCUT>::GraphCut
+(
+   const GraphCut<GM, ACC, MINSTCUT>& other
+)
+:  Inference<GM, ACC>(other),
+   gm_(other.gm_),
+   tolerance_(other.tolerance_),
+   minStCut_(new MinStCutType(*other.minStCut_)),
+   parameter_(other.parameter_),
+   numVariables_(other.numVariables_),
+   numFacDim_(other.numFacDim_),
+   numTriples_(other.numTriples_),
+   state_(other.state_),
+   sEdges_(other.sEdges_),
+   tEdges_(other.tEdges_),
+   inferenceDone_(other.inferenceDone_)
+{}
+
+template<class GM, class ACC, class MINSTCUT>
+inline GraphCut<GM, ACC, MINSTCUT>& GraphCut<GM, ACC, MINSTCUT>::operator=
+(
+   const GraphCut<GM, ACC, MINSTCUT>& other
+)
+{
+   if(this != &other) {
+      MinStCutType* minStCut = new MinStCutType(*other.minStCut_);
+      delete minStCut_;
+      minStCut_ = minStCut;
+      gm_ = other.gm_;
+      tolerance_ = other.tolerance_;
+      parameter_ = other.parameter_;
+      numVariables_ = other.numVariables_;
+      numFacDim_ = other.numFacDim_;
+      numTriples_ = other.numTriples_;
+      state_ = other.state_;
+      sEdges_ = other.sEdges_;
+      tEdges_ = other.tEdges_;
+      inferenceDone_ = other.inferenceDone_;
+   }
+   return *this;
+}
+
 template<class GM, class ACC, class MINSTCUT>
 inline GraphCut<GM, ACC, MINSTCUT>::~GraphCut()
 {
-- 
2.43.0


From 2ba0ba08d2a2388b27a294183025b9e88151427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 207/224] fix: GraphicalModelDecomposition::isValid read
 sub-indices out of bounds when assertions are disabled

---
 .../graphicalmodeldecomposition.hxx           | 30 ++++++++++---------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposition.hxx b/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposition.hxx
index a454b27..aa6b09a 100644
--- a/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposition.hxx
+++ b/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposition.hxx
@@ -332,30 +332,32 @@ bool GraphicalModelDecomposition::isValid(const GM& gm) const
          OPENGM_ASSERT(subVariableLists_[i].size() > 0);
       }
    }
-   for(size_t i=0; i<gm.numberOfFactors(); ++i) {
-      OPENGM_ASSERT(subFactorLists_[i].size() > 0);
-      for(SubFactorListType::const_iterator it=subFactorLists_[i].begin() ; it != subFactorLists_[i].end(); it++ ) {
-         OPENGM_ASSERT((*it).subIndices_.size() == gm[i].numberOfVariables());
-         // check consistency of SubIndices of SubFactors
-         for(size_t j=0; j<gm[i].numberOfVariables(); ++j) {
-            const SubVariableListType &list = subVariableLists_[gm[i].variableIndex(j)];
-            bool check = false;
-            for(SubVariableListType::const_iterator it2=list.begin() ; it2 != list.end(); it2++ ) {
-               if(((*it2).subModelId_ == (*it).subModelId_) && ((*it2).subVariableId_ == (*it).subIndices_[j])) {
-                  check = true;
+   if(!NO_DEBUG) {
+      for(size_t i=0; i<gm.numberOfFactors(); ++i) {
+         OPENGM_ASSERT(subFactorLists_[i].size() > 0);
+         for(SubFactorListType::const_iterator it=subFactorLists_[i].begin() ; it != subFactorLists_[i].end(); it++ ) {
+            OPENGM_ASSERT((*it).subIndices_.size() == gm[i].numberOfVariables());
+            // check consistency of SubIndices of SubFactors
+            for(size_t j=0; j<gm[i].numberOfVariables(); ++j) {
+               const SubVariableListType &list = subVariableLists_[gm[i].variableIndex(j)];
+               bool check = false;
+               for(SubVariableListType::const_iterator it2=list.begin() ; it2 != list.end(); it2++ ) {
+                  if(((*it2).subModelId_ == (*it).subModelId_) && ((*it2).subVariableId_ == (*it).subIndices_[j])) {
+                     check = true;
+                  }
                }
+               OPENGM_ASSERT(check);
             }
-            OPENGM_ASSERT(check);
          }
       }
    }
 
    bool ret = true; 
    if(subVariableLists_.size() != gm.numberOfVariables()) { 
-      ret = false; 
+      return false; 
    }
    if(subFactorLists_.size() != gm.numberOfFactors()) { 
-      ret = false; 
+      return false; 
    }
    for(size_t i=0; i<gm.numberOfVariables(); ++i) {
       if(subVariableLists_[i].size()==0) {
-- 
2.43.0


From c76d9a7669a5cd642dc2ca2ccfa4bd67304274e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 208/224] fix: the command line tool's Fusion ignored the
 random generator and the lazy flipper

---
 src/interfaces/common/caller/fusion_caller.hxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/interfaces/common/caller/fusion_caller.hxx b/src/interfaces/common/caller/fusion_caller.hxx
index 353b3b3..5429dc7 100644
--- a/src/interfaces/common/caller/fusion_caller.hxx
+++ b/src/interfaces/common/caller/fusion_caller.hxx
@@ -91,7 +91,7 @@ inline void FusionCaller<IO, GM, ACC>::setParam(
    if(selectedFusionType_=="QPBO") 
       param.fusionParam_.fusionSolver_ = INF::FusionMover::QpboFusion;
    if(selectedFusionType_=="LF")   
-      param.fusionParam_.fusionSolver_ = INF::FusionMover::QpboFusion;
+      param.fusionParam_.fusionSolver_ = INF::FusionMover::LazyFlipperFusion;
    if(selectedFusionType_=="ILP")  
       param.fusionParam_.fusionSolver_ = INF::FusionMover::CplexFuison;
 
@@ -144,7 +144,7 @@ inline void FusionCaller<IO, GM, ACC>::runImpl(GM& model, OutputBase& output, co
       setParam<INF>(para);
       this-> template infer<INF, typename INF::TimingVisitorType, typename INF::Parameter>(model, output, verbose, para);
    }
-   else if(selectedGenType_=="RADOM"){
+   else if(selectedGenType_=="RANDOM"){
       typedef RGen Gen;
       typedef opengm::FusionBasedInf<GM, Gen> INF;
       typename INF::Parameter para;
@@ -194,6 +194,9 @@ inline void FusionCaller<IO, GM, ACC>::runImpl(GM& model, OutputBase& output, co
       para.proposalParam_.temp_ = temperature_;
       this-> template infer<INF, typename INF::TimingVisitorType, typename INF::Parameter>(model, output, verbose, para);
    }
+   else{
+      throw RuntimeError("Unknown proposal generator!");
+   }
 
 }
 
-- 
2.43.0


From 46864b85a1b5248dc6bda8b8f96200ded153f087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 209/224] fix: the command line tool's DD-Subgradient succeeded
 without result for unavailable subsolvers and bad decomposition files

---
 .../common/caller/dd_subgradient_caller.hxx      | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/interfaces/common/caller/dd_subgradient_caller.hxx b/src/interfaces/common/caller/dd_subgradient_caller.hxx
index 8f5150a..c006988 100644
--- a/src/interfaces/common/caller/dd_subgradient_caller.hxx
+++ b/src/interfaces/common/caller/dd_subgradient_caller.hxx
@@ -172,6 +172,9 @@ namespace opengm {
          }else if(decomposition_.compare("File")==0){
             std::cout << "Read decomposition from file "<<decompositionFile_<<"!"<<std::endl;
             std::ifstream in(decompositionFile_.c_str());
+            if(!in.is_open()) {
+               throw RuntimeError("Could not open decomposition file " + decompositionFile_);
+            }
             std::string line;
             std::vector<std::set<size_t> > decomp;
             while(getline(in, line)) {
@@ -182,6 +185,9 @@ namespace opengm {
                while (iss >> num){ 
                   decomp.back().insert(num);
                }
+               if(!iss.eof()) {
+                  throw RuntimeError("Bad line in decomposition file: " + line);
+               }
                std::cout << "Subproblem "<< decomp.size() << " has " <<  decomp.back().size() <<" variables."<<std::endl;
             }
             in.close();  
@@ -214,7 +220,7 @@ namespace opengm {
             parameter.subPara_.numberOfThreads_ = 1; 
             this-> template infer<DDType, TimingVisitorType, typename DDType::Parameter>(model, output, verbose, parameter);
 #else
-            std::cout << "CPLEX not enabled!!!" <<std::endl;
+            throw RuntimeError("CPLEX not enabled!!!");
 #endif 
          }
          else if((*this).subInf_.compare("DPTree")==0){
@@ -247,7 +253,7 @@ namespace opengm {
             setParameter(parameter);
             this-> template infer<DDType, TimingVisitorType, typename DDType::Parameter>(model, output, verbose, parameter); 
 #else
-            std::cout << "MaxFlow not enabled!!!" <<std::endl;
+            throw RuntimeError("MaxFlow not enabled!!!");
 #endif
          }
          else if((*this).subInf_.compare("RILP")==0){
@@ -267,10 +273,10 @@ namespace opengm {
             parameter.subPara_.subParameter_.numberOfThreads_ = 1; 
             this-> template infer<DDType, TimingVisitorType, typename DDType::Parameter>(model, output, verbose, parameter);
 #else
-            std::cout << "CPLEX not enabled!!!" <<std::endl;
+            throw RuntimeError("CPLEX not enabled!!!");
 #endif
 #else
-            std::cout << "QPBO not enabled!!!" <<std::endl;
+            throw RuntimeError("QPBO not enabled!!!");
 #endif       
          } 
          else if((*this).subInf_.compare("ASTAR")==0){
@@ -282,7 +288,7 @@ namespace opengm {
             this-> template infer<DDType, TimingVisitorType, typename DDType::Parameter>(model, output, verbose, parameter);
          } 
          else{
-            std::cout << "Unknown Sub-Inference-Algorithm !!!" <<std::endl;
+            throw RuntimeError("Unknown Sub-Inference-Algorithm !!!");
          }
       }
    } // namespace interface
-- 
2.43.0


From 11303f01f3d3b29d8f7a28954d922e95c76b90f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 210/224] fix: text vectors of the command line tool lost
 values, digits and accepted malformed numbers

---
 src/interfaces/common/io/io_base.hxx | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/interfaces/common/io/io_base.hxx b/src/interfaces/common/io/io_base.hxx
index dae0ba3..7c55afa 100644
--- a/src/interfaces/common/io/io_base.hxx
+++ b/src/interfaces/common/io/io_base.hxx
@@ -5,6 +5,8 @@
 #include <sstream>
 #include <fstream>
 #include <typeinfo>
+#include <limits>
+#include <string>
 
 #include <opengm/datastructures/marray/marray.hxx>
 #ifdef WITH_HDF5
@@ -430,16 +432,19 @@ void IOBase::loadVectorText(const std::string& filename, const std::string& data
       }
     }
     if(datasetFound) {
-      size_t current_position = 0;
-      while(true) {
-        current_value = std::atof(&current_line[current_position]);
-        vec.push_back(current_value);
-        current_position = current_line.find(';', current_position);
-        if(current_position == std::string::npos) {
-          vec.pop_back();
-          break;
+      std::istringstream values(current_line);
+      std::string current_token;
+      while(std::getline(values, current_token, ';')) {
+        if(current_token.find_first_not_of(" \t\r") == std::string::npos) {
+          continue;
+        }
+        const bool isNegative = current_token.find_first_not_of(" \t\r") == current_token.find('-');
+        std::istringstream token(current_token);
+        if(!(token >> current_value) || !(token >> std::ws).eof()
+           || (isNegative && !std::numeric_limits<typename VEC_TYPE::value_type>::is_signed)) {
+          throw RuntimeError("bad value \"" + current_token + "\" in vector of file " + filename);
         }
-        current_position++;
+        vec.push_back(current_value);
       }
     }
 
@@ -517,6 +522,7 @@ void IOBase::storeVectorText(const std::string& filename, const std::string& dat
     std::abort();
   }
   vector_file << "%" << dataset << std::endl;
+  vector_file.precision(std::numeric_limits<typename VEC_TYPE::value_type>::digits10 + 3);
 
   for(typename VEC_TYPE::const_iterator iter = vec.begin(); iter != vec.end(); iter++) {
     vector_file << *iter << "; ";
-- 
2.43.0


From d8bb50c91df23f4256157714c6de3101ee45585e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 211/224] fix: the command line tool accepted malformed numbers

---
 src/interfaces/commandline/io_cmd.hxx | 40 +++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/interfaces/commandline/io_cmd.hxx b/src/interfaces/commandline/io_cmd.hxx
index 7da2393..1560965 100644
--- a/src/interfaces/commandline/io_cmd.hxx
+++ b/src/interfaces/commandline/io_cmd.hxx
@@ -3,6 +3,8 @@
 
 #include <iostream>
 #include <map>
+#include <limits>
+#include <cerrno>
 #include <cstdlib>
 
 #include "../common/io/io_base.hxx"
@@ -28,6 +30,8 @@ protected:
    typedef std::pair<std::string, std::string> CommandPair;
    template <class ARGUMENT>
    const std::string getCommandOption(const ARGUMENT& command);
+   template <class T>
+   static T parseNumber(const std::string& option);
 public:
    IOCMD(int argc, char** argv);
 
@@ -88,6 +92,32 @@ inline const std::string IOCMD::getCommandOption(const ARGUMENT& command) {
    return "";
 }
 
+template <class T>
+inline T IOCMD::parseNumber(const std::string& option) {
+   char* end = NULL;
+   T value;
+   bool valid = true;
+   errno = 0;
+   if(std::numeric_limits<T>::is_integer) {
+      if(std::numeric_limits<T>::is_signed) {
+         const long long number = strtoll(option.c_str(), &end, 10);
+         value = static_cast<T>(number);
+         valid = static_cast<long long>(value) == number;
+      } else {
+         const unsigned long long number = strtoull(option.c_str(), &end, 10);
+         value = static_cast<T>(number);
+         valid = static_cast<unsigned long long>(value) == number && option.find('-') == std::string::npos;
+      }
+      valid = valid && errno != ERANGE;
+   } else {
+      value = static_cast<T>(strtod(option.c_str(), &end));
+   }
+   if(!valid || end == option.c_str() || *end != '\0') {
+      throw RuntimeError("\"" + option + "\" is not a valid number.");
+   }
+   return value;
+}
+
 template <>
 inline bool IOCMD::read(const BoolArgument& command) {
    bool isSet = false;
@@ -118,7 +148,7 @@ template <>
 inline bool IOCMD::read(const ArgumentBase<int>& command) {
    const std::string commandOption(getCommandOption(command));
    if(!commandOption.empty() && !(commandOption == " ")) {
-      command(atoi(commandOption.c_str()), true);
+      command(parseNumber<int>(commandOption), true);
       return true;
    } else {
       return sanityCheck(command);
@@ -134,7 +164,7 @@ template <>
 inline bool IOCMD::read(const ArgumentBase<opengm::UInt32Type>& command) {
    const std::string commandOption(getCommandOption(command));
    if(!commandOption.empty() && !(commandOption == " ")) {
-      command(atoll(commandOption.c_str()), true);
+      command(parseNumber<opengm::UInt32Type>(commandOption), true);
       return true;
    } else {
       return sanityCheck(command);
@@ -145,7 +175,7 @@ template <>
 inline bool IOCMD::read(const ArgumentBase<opengm::UInt64Type>& command) {
    const std::string commandOption(getCommandOption(command));
    if(!commandOption.empty() && !(commandOption == " ")) {
-      command(atoll(commandOption.c_str()), true);
+      command(parseNumber<opengm::UInt64Type>(commandOption), true);
       return true;
    } else {
       return sanityCheck(command);
@@ -162,7 +192,7 @@ template <>
 inline bool IOCMD::read(const ArgumentBase<double>& command) {
    const std::string commandOption(getCommandOption(command));
    if(!commandOption.empty() && !(commandOption == " ")) {
-      command(atof(commandOption.c_str()), true);
+      command(parseNumber<double>(commandOption), true);
       return true;
    } else {
       return sanityCheck(command);
@@ -178,7 +208,7 @@ template <>
 inline bool IOCMD::read(const ArgumentBase<float>& command) {
    const std::string commandOption(getCommandOption(command));
    if(!commandOption.empty() && !(commandOption == " ")) {
-      command(atof(commandOption.c_str()), true);
+      command(parseNumber<float>(commandOption), true);
       return true;
    } else {
       return sanityCheck(command);
-- 
2.43.0


From 0f12288ee721f3bf3090b9edfcfaa39882789f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 212/224] fix: the command line tool evaluated labelings that
 do not fit the model

---
 src/interfaces/common/io/interface_base.hxx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/interfaces/common/io/interface_base.hxx b/src/interfaces/common/io/interface_base.hxx
index 6444ea3..c09bc16 100644
--- a/src/interfaces/common/io/interface_base.hxx
+++ b/src/interfaces/common/io/interface_base.hxx
@@ -170,7 +170,16 @@ inline void InterfaceBase<GM, INFERENCETYPES, IOTYPE>::parse() {
          io_.read(*evaluate_);
          if(evaluate_->isSet()) {
             //std::cout << "parserChainLoadModel: evaluate vector" << std::endl;
-            typename GM::ValueType result = gm_->evaluate(evaluate_->getValue());
+            const std::vector<size_t>& labels = evaluate_->getValue();
+            if(labels.size() != gm_->numberOfVariables()) {
+               throw RuntimeError("The number of labels to evaluate differs from the number of variables.");
+            }
+            for(size_t i = 0; i < labels.size(); ++i) {
+               if(labels[i] >= gm_->numberOfLabels(i)) {
+                  throw RuntimeError("A label to evaluate is out of range.");
+               }
+            }
+            typename GM::ValueType result = gm_->evaluate(labels);
             evaluateCallback(result);
          } else {
             callInferenceAlgorithm();
-- 
2.43.0


From 60a930b85a4f4f2d63e38045149d3afb7960a948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 213/224] fix: opengm2uai kept only six digits of the function
 values and ignored unusable arguments and files

---
 src/converter/opengm2uai.cxx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/converter/opengm2uai.cxx b/src/converter/opengm2uai.cxx
index 46ae67b..492f698 100644
--- a/src/converter/opengm2uai.cxx
+++ b/src/converter/opengm2uai.cxx
@@ -2,6 +2,8 @@
 #include <vector>
 #include <iostream>
 #include <fstream>
+#include <limits>
+#include <cmath>
 
 
 #include <opengm/graphicalmodel/graphicalmodel.hxx>
@@ -18,6 +20,10 @@
 
 int
 main(int argc, const char* argv[] ) {
+   if(argc != 3) {
+      std::cerr << "Two input arguments required" << std::endl;
+      return 1;
+   }
 
    typedef double ValueType;
    typedef size_t IndexType;
@@ -52,6 +58,11 @@ main(int argc, const char* argv[] ) {
    opengm::hdf5::load(gm, opengmfile,"gm");
    std::ofstream myuaifile;
    myuaifile.open(uaifile.c_str());
+   if(!myuaifile.is_open()) {
+      std::cerr << "Could not open file " << uaifile << std::endl;
+      return 1;
+   }
+   myuaifile.precision(std::numeric_limits<ValueType>::digits10 + 3);
    myuaifile << "MARKOV" << std::endl;
    myuaifile << gm.numberOfVariables() << std::endl;
    for(IndexType var=0; var<gm.numberOfVariables(); ++var){
@@ -97,5 +108,9 @@ main(int argc, const char* argv[] ) {
 
    }
    myuaifile.close();
+   if(!myuaifile) {
+      std::cerr << "Could not write file " << uaifile << std::endl;
+      return 1;
+   }
    return 0;
 }
-- 
2.43.0


From 74406c7593b071c5c8b70c282fad6d1de59bb485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 214/224] fix: uai2opengm read out of bounds for constant
 factors and accepted malformed files

---
 src/converter/uai2opengm.cxx | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/converter/uai2opengm.cxx b/src/converter/uai2opengm.cxx
index e828e58..741127c 100644
--- a/src/converter/uai2opengm.cxx
+++ b/src/converter/uai2opengm.cxx
@@ -89,13 +89,17 @@ int main(int argc, const char* argv[] ) {
    }
 
    // add variables
-   if(myuaifile.eof()) {
+   if(!myuaifile || myuaifile.eof()) {
          std::cerr << "Bad file format: Preamble is incomplete (Cardinalities of variables is missing)." << std::endl;
          return 1;
    } else {
       for(IndexType i=0; i<numVariables; ++i){
          LabelType currentNumberOfStates;
          myuaifile >>currentNumberOfStates;
+         if(!myuaifile || currentNumberOfStates == 0) {
+            std::cerr << "Bad file format: Cardinality of a variable is missing or invalid." << std::endl;
+            return 1;
+         }
          //std::cout <<currentNumberOfStates <<" ";
          gm.addVariable(currentNumberOfStates);
       }
@@ -112,17 +116,26 @@ int main(int argc, const char* argv[] ) {
    }
 
    // get factors;
-   std::vector<std::vector<IndexType> > factors(numFactors);
-   if(myuaifile.eof()) {
+   std::vector<std::vector<IndexType> > factors;
+   if(!myuaifile || (myuaifile.eof() && numFactors != 0)) {
       std::cerr << "Bad file format: Preamble is incomplete (factors are missing)." << std::endl;
       return 1;
    } else {
       for(IndexType f=0;f<numFactors;++f){
          IndexType numFactorVariables;
          myuaifile >> numFactorVariables; 
-         factors[f].resize(numFactorVariables);
+         if(!myuaifile || numFactorVariables > gm.numberOfVariables()) {
+            std::cerr << "Bad file format: Number of variables of a factor is missing or invalid." << std::endl;
+            return 1;
+         }
+         factors.push_back(std::vector<IndexType>(numFactorVariables));
          for(size_t i=0; i<numFactorVariables; ++i){ 
             myuaifile >>  factors[f][i]; 
+            if(!myuaifile || factors[f][i] >= gm.numberOfVariables()
+               || std::find(factors[f].begin(), factors[f].begin() + i, factors[f][i]) != factors[f].begin() + i) {
+               std::cerr << "Bad file format: Variables of a factor are missing or invalid." << std::endl;
+               return 1;
+            }
          }
       }
    }
@@ -130,7 +143,7 @@ int main(int argc, const char* argv[] ) {
 
 
    // add functions to gm
-   if(myuaifile.eof()) {
+   if(myuaifile.eof() && numFactors != 0) {
       std::cerr << "Bad file format: Function tables are missing." << std::endl;
       return 1;
    } else {
@@ -150,7 +163,10 @@ int main(int argc, const char* argv[] ) {
          marray::Marray<ValueType> currentFunctionValues(currentShape.begin(), currentShape.end());
          
          // check for matching size
-         OPENGM_ASSERT_OP(currentFunctionValues.size(), ==, numFunctionValues);  
+         if(!myuaifile || currentFunctionValues.size() != numFunctionValues) {
+            std::cerr << "Bad file format: Wrong number of function values." << std::endl;
+            return 1;
+         }
          
          // set function values
          if(myuaifile.eof()) {
@@ -160,7 +176,10 @@ int main(int argc, const char* argv[] ) {
             std::vector<LabelType> index;
             for(size_t i=0; i<currentFunctionValues.size(); ++i){
                ValueType val;
-               myuaifile >> val;
+               if(!(myuaifile >> val) || !(val >= 0)) {
+                  std::cerr << "Bad file format: Function values are missing or invalid." << std::endl;
+                  return 1;
+               }
                logTransform(val);
                ind2sub(index, i, currentShape);
                currentFunctionValues(index.begin()) =val;
@@ -284,7 +303,7 @@ void ind2sub(T& sub, const U ind, const V& sizes) {
    sub.clear();
    sub.reserve(sizes.size());
    U remainingInd = ind;
-   for(size_t i = 0; i < sizes.size() - 1; i++) {
+   for(size_t i = 0; i + 1 < sizes.size(); i++) {
       size_t numSubentries = 1;
       for(size_t j = i + 1; j < sizes.size(); j++) {
          numSubentries *= sizes[j];
-- 
2.43.0


From 36c659da115ca42e9bc1e0495b7dff191c64e90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 215/224] fix: opengm2wudag read constants as edges and
 accepted models that are no Potts models

---
 src/converter/opengm2wudag.cxx | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/converter/opengm2wudag.cxx b/src/converter/opengm2wudag.cxx
index 9a03979..38c8640 100644
--- a/src/converter/opengm2wudag.cxx
+++ b/src/converter/opengm2wudag.cxx
@@ -36,7 +36,7 @@ int
 main(int argc, const char* argv[] ) {
    if(argc!=3){
       std::cout << "Syntax: INFILE OUTFILE" << std::endl; 
-      return 0;
+      return 1;
    } 
 
    GraphicalModelType gm; 
@@ -50,13 +50,19 @@ main(int argc, const char* argv[] ) {
 
    //check model and calculate constant
    ValueType constValue = 0;
+   IndexType numberOfEdges = 0;
    for(IndexType f=0; f<gm.numberOfFactors();++f){
       if(gm[f].numberOfVariables() == 0){
          LabelType l0 =0;
          constValue += gm[f](&l0);
       }
       else if(gm[f].numberOfVariables() == 2){
+         if(gm[f].numberOfLabels(0) < 2 || gm[f].numberOfLabels(1) < 2 || !gm[f].isPotts()){
+            std::cout << "ERROR: Factor is not a Potts function !!!" << std::endl;
+            return 1;
+         }
          constValue += gm[f](l00);
+         ++numberOfEdges;
       }
       else{
          std::cout << "ERROR: Unsupported factor order !!!" << std::endl;
@@ -66,8 +72,15 @@ main(int argc, const char* argv[] ) {
    
    std::ofstream outputFile;
    outputFile.open(outfile.c_str());
-   outputFile << "  "<< gm.numberOfVariables() << " " << gm.numberOfFactors() << " "<< std::setprecision(20) << constValue << std::endl;
+   if(!outputFile.is_open()){
+      std::cout << "ERROR: Could not open file " << outfile << std::endl;
+      return 1;
+   }
+   outputFile << "  "<< gm.numberOfVariables() << " " << numberOfEdges << " "<< std::setprecision(20) << constValue << std::endl;
    for(IndexType f=0; f<gm.numberOfFactors();++f){
+      if(gm[f].numberOfVariables() != 2) {
+         continue;
+      }
       IndexType vars[] = {0,0};
       vars[0] = gm[f].variableIndex(0);
       vars[1] = gm[f].variableIndex(1);
@@ -76,6 +89,10 @@ main(int argc, const char* argv[] ) {
       outputFile <<  vars[0] << " " << vars[1] << " "<< std::setprecision(20) << v01-v00 << std::endl;
    }
    outputFile.close();
+   if(!outputFile){
+      std::cout << "ERROR: Could not write file " << outfile << std::endl;
+      return 1;
+   }
 
    return 0;
 }
-- 
2.43.0


From a9fdd94b2856ecbb737688a2287621acef24e337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 216/224] fix: partition2potts accepted models that are no
 pairwise Potts models and invalid numbers of labels

---
 src/converter/partition2potts.cxx | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/converter/partition2potts.cxx b/src/converter/partition2potts.cxx
index 61c58d0..e9ef5f2 100755
--- a/src/converter/partition2potts.cxx
+++ b/src/converter/partition2potts.cxx
@@ -34,13 +34,18 @@ int
 main(int argc, const char* argv[] ) {
    if(argc!=4){
       std::cout << "Syntax: INFILE OUTFILE NUMLABELS" << std::endl; 
-      return 0;
+      return 1;
    } 
 
    GraphicalModelType gm1; 
    std::string infile  = argv[1]; 
    std::string outfile = argv[2];
-   size_t L            = atoi(argv[3]);
+   const int numberOfLabels = atoi(argv[3]);
+   if(numberOfLabels < 1){
+      std::cout << "ERROR: Invalid number of labels !!!" << std::endl;
+      return 1;
+   }
+   size_t L            = numberOfLabels;
 
    opengm::hdf5::load(gm1, infile,  "gm");
 
@@ -67,6 +72,10 @@ main(int argc, const char* argv[] ) {
    LabelType l00[] = {0,0};
    LabelType l01[] = {0,1};
    for(IndexType f=0; f<gm1.numberOfFactors();++f){
+      if(gm1[f].numberOfVariables() != 2 || gm1[f].numberOfLabels(0) < 2 || gm1[f].numberOfLabels(1) < 2 || !gm1[f].isPotts()){
+         std::cout << "ERROR: Factor is not a pairwise Potts function !!!" << std::endl;
+         return 1;
+      }
       IndexType vars[] = {0,0};
       vars[0] = gm1[f].variableIndex(0);
       vars[1] = gm1[f].variableIndex(1);
-- 
2.43.0


From 3e7c39459708329cd9e00dce91b147bcc015834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 217/224] fix: matching2opengm-N2N counted the last record
 twice and accepted malformed files

---
 src/converter/matching2opengm-N2N.cxx | 36 ++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/converter/matching2opengm-N2N.cxx b/src/converter/matching2opengm-N2N.cxx
index 9e6b9f0..6e6ca92 100644
--- a/src/converter/matching2opengm-N2N.cxx
+++ b/src/converter/matching2opengm-N2N.cxx
@@ -53,7 +53,7 @@ int main(int argc, const char* argv[] ) {
 
    // temp storage for current line of uai file
    std::string currentLine; 
-   char command;
+   char command = 0;
    size_t pointsLeft;
    size_t pointsRight;
    size_t A;
@@ -68,6 +68,10 @@ int main(int argc, const char* argv[] ) {
    mymatchingfile >> pointsRight;
    mymatchingfile >> A;
    mymatchingfile >> E;
+   if(!mymatchingfile || pointsRight == 0) {
+      std::cerr << "Bad file format: Incomplete model info." << std::endl;
+      return 1;
+   }
    std::vector<std::pair<size_t, size_t> > assigments(A);
 
 //   std::vector<std::vector<ValueType> >    unaries( pointsLeft, std::vector<ValueType>(pointsRight));
@@ -86,24 +90,31 @@ int main(int argc, const char* argv[] ) {
 
    size_t countA =0; 
    size_t countE =0;
-   while(!mymatchingfile.eof()) {
-      mymatchingfile >> command;
+   while(mymatchingfile >> command) {
       if(command =='a'){++countA;
          size_t aID, pL, pR;
          ValueType v;
          mymatchingfile >> aID;
          mymatchingfile >> pL;  
          mymatchingfile >> pR;
-         assigments[aID] = std::pair<size_t,size_t>(pL,pR);
          mymatchingfile >> v;
+         if(!mymatchingfile || aID >= A || pL >= pointsLeft || pR >= pointsRight) {
+            std::cerr << "Bad file format: Invalid assignment." << std::endl;
+            return 1;
+         }
+         assigments[aID] = std::pair<size_t,size_t>(pL,pR);
          unaries[pL](&pR) = v;
       }
-      if(command =='e'){++countE;
+      else if(command =='e'){++countE;
          size_t aID1, aID2;
          double v;
          mymatchingfile >> aID1;
          mymatchingfile >> aID2;
          mymatchingfile >> v;
+         if(!mymatchingfile || aID1 >= A || aID2 >= A) {
+            std::cerr << "Bad file format: Invalid edge." << std::endl;
+            return 1;
+         }
          if(assigments[aID1].first < assigments[aID2].first){
             labeling[0] = assigments[aID1].second;
             labeling[1] = assigments[aID2].second;
@@ -116,11 +127,18 @@ int main(int argc, const char* argv[] ) {
             pairs[assigments[aID2].first][assigments[aID1].first](labeling.begin()) += v;
          }
       }
+      else{ // skip unknown record
+         std::getline(mymatchingfile, currentLine);
+      }
+   }
+   if (A!=countA) {
+      std::cerr << "Wrong number of Assignments "<<  A <<" != " << countA <<std::endl;
+      return 1;
+   }
+   if (E!=countE) {
+      std::cerr << "Wrong number of Edges "<<  E <<" != " << countE <<std::endl;
+      return 1;
    }
-   if (A!=countA)
-      std::cout << "Wrong number of Assignments "<<  A <<" != " << countA <<std::endl;
-   if (E!=countE)
-      std::cout << "Wrong number of Edges "<<  E <<" != " << countE <<std::endl;
    
  
    for(IndexType i=0; i<pointsLeft; ++i){
-- 
2.43.0


From 6e55abc66808bebae285662d11e971b212e720f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 218/224] fix: opengm-brain-converter used missing arguments
 and values

---
 src/converter/brain.cxx | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/converter/brain.cxx b/src/converter/brain.cxx
index 298ea70..eda1dfd 100644
--- a/src/converter/brain.cxx
+++ b/src/converter/brain.cxx
@@ -26,9 +26,15 @@ typedef GraphicalModelType::FunctionIdentifier          FunctionIdentifier;
 
 int main(int argc, char *argv[])
 {  
-   if(argc==1){
+   if(argc!=7){
       std::cout<<std::endl << "usage: brain [infile] [outfile] [dim1 dim2 dim3] [pottsweight]" <<std::endl << std::endl;
-      return 0;
+      return argc==1 ? 0 : 1;
+   }
+
+   std::ifstream file(argv[1],std::ios::in | std::ios::binary);
+   if(!file.is_open()){
+      std::cerr << "Could not open file " << argv[1] << std::endl;
+      return 1;
    }
 
    const size_t    dim1 = atoi(argv[3]);
@@ -59,11 +65,13 @@ int main(int argc, char *argv[])
 
    unsigned char value;
    IndexType varId[2];
-   std::ifstream file(argv[1],std::ios::in | std::ios::binary);
    for(size_t d3=0; d3<dim3; ++d3){
       for(size_t d2=0; d2<dim2; ++d2){
          for(size_t d1=0; d1<dim1; ++d1){
-            file.read(reinterpret_cast<char *>(&value),1); 
+            if(!file.read(reinterpret_cast<char *>(&value),1)){
+               std::cerr << "Not enough values in file " << argv[1] << std::endl;
+               return 1;
+            }
 // std::cout <<(size_t) value << "  ";
             varId[0] = d3*dim2*dim1 + d2*dim1 + d1;
             gm.addFactor(fid[(size_t) value], varId, varId+1);
-- 
2.43.0


From 0a76ed244138e138d724acd86b88e5a831bf9155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 219/224] fix: matching2opengm linked wrong labels, counted the
 last record twice and accepted malformed files

---
 src/converter/matching2opengm.cxx | 51 +++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/src/converter/matching2opengm.cxx b/src/converter/matching2opengm.cxx
index 64bc2b5..a8f4e59 100644
--- a/src/converter/matching2opengm.cxx
+++ b/src/converter/matching2opengm.cxx
@@ -6,6 +6,7 @@
 #include <cmath>
 #include <limits>
 #include <algorithm>
+#include <map>
 
 
 #include <opengm/graphicalmodel/graphicalmodel.hxx>
@@ -57,7 +58,7 @@ int main(int argc, const char* argv[] ) {
 
    // temp storage for current line of uai file
    std::string currentLine; 
-   char command;
+   char command = 0;
    size_t pointsLeft;
    size_t pointsRight;
    size_t A;
@@ -77,6 +78,10 @@ int main(int argc, const char* argv[] ) {
    mymatchingfile >> pointsRight;
    mymatchingfile >> A;
    mymatchingfile >> E;
+   if(!mymatchingfile) {
+      std::cerr << "Bad file format: Incomplete model info." << std::endl;
+      return 1;
+   }
    std::vector<std::pair<size_t, size_t> > assignments(A); 
    std::vector<double >                    assignmentsV(A);
    std::vector<std::pair<size_t, size_t> > assignmentsVar(A);
@@ -98,8 +103,7 @@ int main(int argc, const char* argv[] ) {
    std::vector<std::vector<size_t> > labels;
 
 
-   while(!mymatchingfile.eof()) {
-      mymatchingfile >> command;
+   while(mymatchingfile >> command) {
       if(command =='a'){
          ++countA;
          int aID, pL, pR;
@@ -107,8 +111,13 @@ int main(int argc, const char* argv[] ) {
          mymatchingfile >> aID;
          mymatchingfile >> pL;  
          mymatchingfile >> pR;
-         assignments[aID] = std::pair<size_t,size_t>(pL,pR);
          mymatchingfile >> v;
+         if(!mymatchingfile || aID < 0 || pL < 0 || pR < 0
+            || static_cast<size_t>(aID) >= A || static_cast<size_t>(pL) >= pointsLeft || static_cast<size_t>(pR) >= pointsRight) {
+            std::cerr << "Bad file format: Invalid assignment." << std::endl;
+            return 1;
+         }
+         assignments[aID] = std::pair<size_t,size_t>(pL,pR);
          assignmentsV[aID] = v; 
 
          if(flag==0){ // Left -> Right
@@ -141,15 +150,30 @@ int main(int argc, const char* argv[] ) {
             assignmentsVar[aID] =  std::pair<size_t,size_t>(countKeyLeft+countKeyRight-1, countL++);
          }
       }
-      if(command =='e'){++countE;
+      else if(command =='e'){++countE;
          size_t aID1, aID2;
          double v;
          mymatchingfile >> aID1;
          mymatchingfile >> aID2;
          mymatchingfile >> v;  
+         if(!mymatchingfile || aID1 >= A || aID2 >= A || static_cast<size_t>(countE) > E) {
+            std::cerr << "Bad file format: Invalid edge." << std::endl;
+            return 1;
+         }
          edges[countE-1] = std::pair<size_t,size_t>(aID1,aID2);
          edgesV[countE-1] = lambda*v; 
       }
+      else{ // skip unknown record
+         std::getline(mymatchingfile, currentLine);
+      }
+   }
+   if (A!=countA) {
+      std::cerr << "Wrong number of Assignments "<<  A <<" != " << countA <<std::endl;
+      return 1;
+   }
+   if (E!=countE) {
+      std::cerr << "Wrong number of Edges "<<  E <<" != " << countE <<std::endl;
+      return 1;
    }
    std::cout << "Left keyfeatures: " << countKeyLeft << " Right keyfeatures: " << countKeyRight <<std::endl;
    size_t numVar =  countKeyLeft+  countKeyRight;
@@ -175,7 +199,7 @@ int main(int argc, const char* argv[] ) {
             const size_t feat = assignments[i].first;
             //check if label exists
             bool collision = false;
-            bool label     = 0;
+            size_t label   = 0;
             for(size_t j=0; j<labels[var].size();++j)
                if(labels[var][j] == feat){
                   collision = true;
@@ -212,7 +236,7 @@ int main(int argc, const char* argv[] ) {
             const size_t var  = it->second;
             const size_t feat = assignments[i].second;
             bool collision= false; 
-            bool label     = 0;
+            size_t label   = 0;
             for(size_t j=0; j<labels[ it->second].size();++j)
                if(labels[var][j] == feat){
                   collision = true;   
@@ -295,7 +319,13 @@ int main(int argc, const char* argv[] ) {
    }
    for(size_t i=0; i<edges.size(); ++i){
       //std::cout << assignmentsVar[edges[i].first].first << " " << assignmentsVar[edges[i].second].first <<std::endl;
-      Adj[assignmentsVar[edges[i].first].first][assignmentsVar[edges[i].second].first] = 1;
+      const size_t var1 = assignmentsVar[edges[i].first].first;
+      const size_t var2 = assignmentsVar[edges[i].second].first;
+      if(var1 == var2) {
+         std::cerr << "Bad file format: Edge between assignments of the same point." << std::endl;
+         return 1;
+      }
+      Adj[std::min(var1, var2)][std::max(var1, var2)] = 1;
    }
 
    for(size_t i=0; i<countKeyLeft; ++i)
@@ -305,11 +335,6 @@ int main(int argc, const char* argv[] ) {
       std::cout << labels[i+countKeyLeft].size() << " ";
    std::cout << std::endl;
 
-   if (A!=countA)
-      std::cout << "Wrong number of Assignments "<<  A <<" != " << countA <<std::endl;
-   if (E!=countE)
-      std::cout << "Wrong number of Edges "<<  E <<" != " << countE <<std::endl;
- 
 
 /*
    size_t count=0;
-- 
2.43.0


From 113f79034fdbe03881466171157de581aa06c8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 220/224] fix: AStar::infer returned UNKNOWN when a visitor
 stopped it after the last requested configuration

---
 include/opengm/inference/astar.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index 35d47c8..47c4ba2 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -350,6 +350,9 @@ namespace opengm {
          array_.pop_back();
       }
       visitor.end(*this);     
+      // a visitor may stop after the last configuration that was asked for
+      if(parameter_.numberOfOpt_ == optConf_.size())
+         return NORMAL;
       return UNKNOWN;
    } 
 
-- 
2.43.0


From 90239e28e75284faded05d58cac3d90755049b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 221/224] fix: models with bool values could not be saved to or
 loaded from HDF5 (no HDF5 type for bool)

---
 include/opengm/datastructures/marray/marray_hdf5.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/datastructures/marray/marray_hdf5.hxx b/include/opengm/datastructures/marray/marray_hdf5.hxx
index 94bcf11..762e456 100644
--- a/include/opengm/datastructures/marray/marray_hdf5.hxx
+++ b/include/opengm/datastructures/marray/marray_hdf5.hxx
@@ -188,6 +188,9 @@ template<> inline hid_t hdf5Type<unsigned long>()
 template<> inline hid_t hdf5Type<unsigned long long>()
     { return uintTypeHelper<unsigned long long>(); }
 
+template<> inline hid_t hdf5Type<bool>()
+    { return uintTypeHelper<bool>(); }
+
 template<> inline hid_t hdf5Type<char>()
     { return uintTypeHelper<char>(); }
 template<> inline hid_t hdf5Type<signed char>()
-- 
2.43.0


From e6574828e189e3778a7a2c174ab7a4bfe2f336ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 222/224] fix: LPInferenceBase added more constraints per
 iteration than maxNumConstraintsPerIter_

---
 include/opengm/inference/lp_inference_base.hxx | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/opengm/inference/lp_inference_base.hxx b/include/opengm/inference/lp_inference_base.hxx
index cf47706..86e6526 100644
--- a/include/opengm/inference/lp_inference_base.hxx
+++ b/include/opengm/inference/lp_inference_base.hxx
@@ -3006,14 +3006,11 @@ inline bool LPInferenceBase<LP_INFERENCE_TYPE>::tightenPolytope() {
       addViolatedLinearConstraintsFunctor.lpInference_ = this;
       addViolatedLinearConstraintsFunctor.numConstraintsAdded_ = numConstraintsAdded;
       addViolatedLinearConstraintsFunctor.sortedViolatedConstraintsList_ = &sortedViolatedConstraints;
-      for(size_t i = 0; i < linearConstraintFactors_.size(); ++i) {
+      for(size_t i = 0; i < linearConstraintFactors_.size() && addViolatedLinearConstraintsFunctor.numConstraintsAdded_ < parameter_.maxNumConstraintsPerIter_; ++i) {
          addViolatedLinearConstraintsFunctor.labelingBegin_ = IntegerSolutionSubsequenceIterator(currentArg.begin(), linearConstraintLPVariablesSubsequenceIndices_[i].begin());
          addViolatedLinearConstraintsFunctor.linearConstraintID_ = i;
          const IndexType currentFactor = linearConstraintFactors_[i];
          gm_[currentFactor].callFunctor(addViolatedLinearConstraintsFunctor);
-         if(addViolatedLinearConstraintsFunctor.numConstraintsAdded_ == parameter_.maxNumConstraintsPerIter_) {
-            break;
-         }
       }
 
       numConstraintsAdded = addViolatedLinearConstraintsFunctor.numConstraintsAdded_;
@@ -3149,14 +3146,11 @@ inline bool LPInferenceBase<LP_INFERENCE_TYPE>::tightenPolytopeRelaxed() {
       addViolatedLinearConstraintsRelaxedFunctor.lpInference_ = this;
       addViolatedLinearConstraintsRelaxedFunctor.numConstraintsAdded_ = numConstraintsAdded;
       addViolatedLinearConstraintsRelaxedFunctor.sortedViolatedConstraintsList_ = &sortedViolatedConstraints;
-      for(size_t i = 0; i < linearConstraintFactors_.size(); ++i) {
+      for(size_t i = 0; i < linearConstraintFactors_.size() && addViolatedLinearConstraintsRelaxedFunctor.numConstraintsAdded_ < parameter_.maxNumConstraintsPerIter_; ++i) {
          addViolatedLinearConstraintsRelaxedFunctor.labelingBegin_ = RelaxedSolutionSubsequenceIterator(relaxedArgBegin, linearConstraintLPVariablesSubsequenceIndices_[i].begin());
          addViolatedLinearConstraintsRelaxedFunctor.linearConstraintID_ = i;
          const IndexType currentFactor = linearConstraintFactors_[i];
          gm_[currentFactor].callFunctor(addViolatedLinearConstraintsRelaxedFunctor);
-         if(addViolatedLinearConstraintsRelaxedFunctor.numConstraintsAdded_ == parameter_.maxNumConstraintsPerIter_) {
-            break;
-         }
       }
 
       numConstraintsAdded = addViolatedLinearConstraintsRelaxedFunctor.numConstraintsAdded_;
-- 
2.43.0


From 6649e4d8352ff258be2bbe97b4f17ceadeea4220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 223/224] fix: LPInferenceBase with integer constraints, loose
 relaxation and weighted heuristic could add the same linear constraint
 forever

---
 include/opengm/inference/lp_inference_base.hxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/lp_inference_base.hxx b/include/opengm/inference/lp_inference_base.hxx
index 86e6526..b42b7d5 100644
--- a/include/opengm/inference/lp_inference_base.hxx
+++ b/include/opengm/inference/lp_inference_base.hxx
@@ -3006,7 +3006,12 @@ inline bool LPInferenceBase<LP_INFERENCE_TYPE>::tightenPolytope() {
       addViolatedLinearConstraintsFunctor.lpInference_ = this;
       addViolatedLinearConstraintsFunctor.numConstraintsAdded_ = numConstraintsAdded;
       addViolatedLinearConstraintsFunctor.sortedViolatedConstraintsList_ = &sortedViolatedConstraints;
-      for(size_t i = 0; i < linearConstraintFactors_.size() && addViolatedLinearConstraintsFunctor.numConstraintsAdded_ < parameter_.maxNumConstraintsPerIter_; ++i) {
+      // The labeling is compared with the constraint functions, so a constraint
+      // function can also be violated because its indicator variables are not yet
+      // linked to the labeling. Hence violated inactive constraints have to be added
+      // first, otherwise the same linear constraints would be added again and again.
+      const bool violatedInactiveConstraintsFound = !sortedViolatedConstraints.empty();
+      for(size_t i = 0; !violatedInactiveConstraintsFound && i < linearConstraintFactors_.size() && addViolatedLinearConstraintsFunctor.numConstraintsAdded_ < parameter_.maxNumConstraintsPerIter_; ++i) {
          addViolatedLinearConstraintsFunctor.labelingBegin_ = IntegerSolutionSubsequenceIterator(currentArg.begin(), linearConstraintLPVariablesSubsequenceIndices_[i].begin());
          addViolatedLinearConstraintsFunctor.linearConstraintID_ = i;
          const IndexType currentFactor = linearConstraintFactors_[i];
-- 
2.43.0


From f91fbf5bd9f7cfcc7e7c46b933a8c7b0c458b028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:12 +0000
Subject: [PATCH 224/224] fix: binaryProperty and valueProperty of factors
 asked the wrong function in models with two function types

---
 .../graphicalmodel/graphicalmodel_function_wrapper.hxx    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_function_wrapper.hxx b/include/opengm/graphicalmodel/graphicalmodel_function_wrapper.hxx
index 2556808..6106ca4 100755
--- a/include/opengm/graphicalmodel/graphicalmodel_function_wrapper.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_function_wrapper.hxx
@@ -1392,8 +1392,8 @@ namespace detail_graphical_model {
       if(meta::EqualNumber<NUMBER_OF_FUNCTIONS,1>::value) {OPENGM_FWRAPPER_PROPERTY_GEN_MACRO(0);}
       // special implementation if there are only two functions in the typelist
       if(meta::EqualNumber<NUMBER_OF_FUNCTIONS,2>::value) {
-         if(functionType==0){OPENGM_FWRAPPER_PROPERTY_GEN_MACRO(1);}
-         else{OPENGM_FWRAPPER_PROPERTY_GEN_MACRO(2);}
+         if(functionType==0){OPENGM_FWRAPPER_PROPERTY_GEN_MACRO(0);}
+         else{OPENGM_FWRAPPER_PROPERTY_GEN_MACRO(1);}
       }
       // general case : 3 or more functions in the typelist
       if(meta::BiggerOrEqualNumber<NUMBER_OF_FUNCTIONS,3>::value) {
@@ -1450,8 +1450,8 @@ namespace detail_graphical_model {
       if(meta::EqualNumber<NUMBER_OF_FUNCTIONS,1>::value) {OPENGM_FWRAPPER_VALUE_PROPERTY_GEN_MACRO(0);}
       // special implementation if there are only two functions in the typelist
       if(meta::EqualNumber<NUMBER_OF_FUNCTIONS,2>::value) {
-         if(functionType==0){OPENGM_FWRAPPER_VALUE_PROPERTY_GEN_MACRO(1);}
-         else{OPENGM_FWRAPPER_VALUE_PROPERTY_GEN_MACRO(2);}
+         if(functionType==0){OPENGM_FWRAPPER_VALUE_PROPERTY_GEN_MACRO(0);}
+         else{OPENGM_FWRAPPER_VALUE_PROPERTY_GEN_MACRO(1);}
       }
       // general case : 3 or more functions in the typelist
       if(meta::BiggerOrEqualNumber<NUMBER_OF_FUNCTIONS,3>::value) {
-- 
2.43.0

