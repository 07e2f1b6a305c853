From 7695844189a364ed728b5269cb225c3d535e3150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 001/144] fix: EtalonDriftModel.baseDerivative raised
 AttributeError and had one factor p_2 too many

---
 BayesicFitting/source/EtalonDriftModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/EtalonDriftModel.py b/BayesicFitting/source/EtalonDriftModel.py
index 89c78c1..fed8516 100644
--- a/BayesicFitting/source/EtalonDriftModel.py
+++ b/BayesicFitting/source/EtalonDriftModel.py
@@ -131,9 +131,9 @@ class EtalonDriftModel( NonLinearModel ):
         dd = 1 + p1 * sx * sx
 
         dd *= dd
-        df = - 2 * math.pi * params[0] * p1 * params[2] * sx * numpy.cos( x ) / dd
+        df = - 2 * math.pi * params[0] * p1 * sx * numpy.cos( x ) / dd
 
-        return [df * params[2], df * params[4]].T
+        return numpy.asarray( [df * params[2], df * params[4]] ).T
 
     def basePartial( self, xdata, params, parlist=None ):
         """
-- 
2.43.0


From 9b0060c6dc5fe1525bde0ba140c313144b8971e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 002/144] fix: SplinesModel.baseDerivative was only correct for
 cubic splines

---
 BayesicFitting/source/SplinesModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/SplinesModel.py b/BayesicFitting/source/SplinesModel.py
index 84eda44..60240d0 100644
--- a/BayesicFitting/source/SplinesModel.py
+++ b/BayesicFitting/source/SplinesModel.py
@@ -239,7 +239,7 @@ class SplinesModel( LinearModel ):
 
         """
         ff = numpy.append( numpy.arange( self.order + 1, dtype=float ),
-                           numpy.full( self.npbase - self.order - 1, 3, dtype=float ) )
+                           numpy.full( self.npbase - self.order - 1, self.order, dtype=float ) )
         pars = params * ff
         pars = pars[1:]
         return SplinesModel( knots=self.knots, order=self.order-1 ).result( xdata, pars )
-- 
2.43.0


From d662f6530c6c98a358914cc63ac45cb4e5c76cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 003/144] fix: DecisionTreeModel.baseDerivative must have the
 shape of the (N,ndim) input

---
 BayesicFitting/source/DecisionTreeModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 0016c91..dd27ac6 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -438,7 +438,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
             values for the parameters.
 
         """
-        return numpy.zeros( Tools.length( xdata ), dtype=float )
+        return numpy.zeros_like( xdata, dtype=float )
 
     def baseName( self ):
         """
-- 
2.43.0


From 0eb3fba3b0ca4c6505e3532981eba8c14472eda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 004/144] fix: SineSplineModel.baseDerivative passed all
 parameters to both splines and scaled their derivatives

---
 BayesicFitting/source/SineSplineModel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/SineSplineModel.py b/BayesicFitting/source/SineSplineModel.py
index 178c1be..b685745 100644
--- a/BayesicFitting/source/SineSplineModel.py
+++ b/BayesicFitting/source/SineSplineModel.py
@@ -181,9 +181,10 @@ class SineSplineModel( LinearModel ):
         cx = numpy.cos( tx )
         sx = numpy.sin( tx )
         amps = self.getAmplitudes( xdata, params )
-        cadx = self.cm.baseDerivative( xdata, params )
-        sadx = self.sm.baseDerivative( xdata, params )
-        return tpf * ( cadx * cx - amps[0] * sx + sadx * sx + amps[1] * cx )
+        nh = self.npbase // 2
+        cadx = self.cm.baseDerivative( xdata, params[:nh] )
+        sadx = self.sm.baseDerivative( xdata, params[nh:] )
+        return cadx * cx + sadx * sx + tpf * ( amps[1] * cx - amps[0] * sx )
 
     def getAmplitudes( self, xdata, params ) :
         """
-- 
2.43.0


From a884efb4760734b3d9dff90742d146771b0c2b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 005/144] fix: SineSplineDriftModel.baseDerivative passed all
 parameters to every part and missed the chain rule

---
 BayesicFitting/source/SineSplineDriftModel.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/SineSplineDriftModel.py b/BayesicFitting/source/SineSplineDriftModel.py
index cbf3c44..a961818 100644
--- a/BayesicFitting/source/SineSplineDriftModel.py
+++ b/BayesicFitting/source/SineSplineDriftModel.py
@@ -197,16 +197,16 @@ class SineSplineDriftModel( NonLinearModel ):
 
         """
         nd = self.degree + 1
-        drift = 2 * math.pi * xdata * self.pm.result( xdata, params[:nd] )
+        nh = ( self.npbase - nd ) // 2
+        pol = self.pm.result( xdata, params[:nd] )
+        drift = 2 * math.pi * xdata * pol
         cx = numpy.cos( drift )
         sx = numpy.sin( drift )
-        pdx = self.pm.baseDerivative( xdata, params )
-        cdx = cx * pdx
-        sdx = sx * pdx
+        pdx = 2 * math.pi * ( pol + xdata * self.pm.baseDerivative( xdata, params[:nd] ) )
         amps = self.getAmplitudes( xdata, params )
-        cadx = self.cm.baseDerivative( xdata, params )
-        sadx = self.sm.baseDerivative( xdata, params )
-        return 2 * math.pi * ( cadx * cx - amps[0] * sdx + sadx * sx + amps[1] * cdx )
+        cadx = self.cm.baseDerivative( xdata, params[nd:nd+nh] )
+        sadx = self.sm.baseDerivative( xdata, params[nd+nh:] )
+        return cadx * cx + sadx * sx + pdx * ( amps[1] * cx - amps[0] * sx )
 
     def getAmplitudes( self, xdata, params ) :
         """
-- 
2.43.0


From d0b087cc02eca89624900e289dc8896b9941363d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 006/144] fix: partial and derivative of a model piped into a
 chain raised AttributeError

---
 BayesicFitting/source/Model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index e839d66..4126085 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -420,11 +420,13 @@ class Model( FixedModel ):
             if self.lastndout != model.ndim :
                 raise ValueError( "Trying to pipe incompatible models:  %d | %d"%
                                 (self.lastndout, model.ndim) )
-            model.selectPipe( self.ndim, model.ndim, model.ndout )
 
         if model._next is not None :
             model = Brackets( model )     # provide brackets if model is a chain
 
+        if operation == self.PIP :
+            model.selectPipe( self.ndim, model.ndim, model.ndout )
+
         last = self
         while last._next != None:
             last = last._next
@@ -1739,6 +1741,7 @@ class Brackets( Model ):
                 deep += 1
             next = next._next
         setatt( self, "deep", deep )
+        setatt( self, "ndout", model.lastndout )
         setatt( self, "parNames", [] )
 
     def copy( self ):
-- 
2.43.0


From ee89e99dfd8d083222ce8a5dc7453d3f66c17576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 007/144] fix: partial and derivative of a longer pipe
 evaluated inner models on the outer input

---
 BayesicFitting/source/Model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 4126085..7ef1c67 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -600,7 +600,7 @@ class Model( FixedModel ):
 
         if self._next is None :
             return df
-        if nextres is None:
+        if nextres is None and self._operation != self.PIP :
             nextres = super( Model, self ).result( xdata, par )
         result = self.operate( result, par, nextres )
 
@@ -681,7 +681,7 @@ class Model( FixedModel ):
         model = self._next
         if model is None:
             return partial
-        if nextres is None:
+        if nextres is None and self._operation != self.PIP :
             nextres = super( Model, self ).result( xdata, par )
 
         result = self.operate( result, param[at:], nextres )
-- 
2.43.0


From 9a47cfce7c1958c18fd341d7b216b3f349a403bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 008/144] fix: derivative of a product, quotient or difference
 of multidimensional models raised an error

---
 BayesicFitting/source/Model.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 7ef1c67..406b28d 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -573,7 +573,7 @@ class Model( FixedModel ):
 
 #        print( "Model2  ", self.shortName(), df.shape, nextdf.shape, self._operation )
 
-        isnotlist = self.ndim == 1 or self.ndout == 1
+        isnotlist = not isinstance( nextdf, list )
         if self._operation == self.NOP :
             df = nextdf
 
@@ -582,15 +582,22 @@ class Model( FixedModel ):
                  [ d + n for d,n in zip( df, nextdf )] )
 
         elif self._operation == self.SUB :
-            df = df - nextdf
+            df = ( df - nextdf if isnotlist else
+                 [ d - n for d,n in zip( df, nextdf )] )
 
         elif self._operation == self.MUL :
             nextres = super( Model, self ).result( xdata, par )
-            df = df * nextres + nextdf * result
+            df = self._scale( df, nextres )
+            nextdf = self._scale( nextdf, result )
+            df = ( df + nextdf if isnotlist else
+                 [ d + n for d,n in zip( df, nextdf )] )
 
         elif self._operation == self.DIV :
             nextres = super( Model, self ).result( xdata, par )
-            df = ( df * nextres - nextdf * result ) / ( nextres * nextres )
+            df = self._scale( df, 1 / nextres )
+            nextdf = self._scale( nextdf, result / ( nextres * nextres ) )
+            df = ( df - nextdf if isnotlist else
+                 [ d - n for d,n in zip( df, nextdf )] )
 
         elif self._operation == self.PIP :
 #            nextres = 'dummy'           ## not needed, but needs something
@@ -609,6 +616,17 @@ class Model( FixedModel ):
         return model._recursiveDerivative( xdata, param[np:], result, df,
                     useNum=useNum )
 
+    def _scale( self, df, factor ) :
+        """
+        Multiply derivatives or partials with a factor per datum (and per output).
+
+        """
+        if isinstance( df, list ) :
+            return [numpy.multiply( d.T, factor[:,k] ).T for k,d in enumerate( df )]
+        if numpy.ndim( df ) > numpy.ndim( factor ) :
+            return numpy.multiply( df.T, factor ).T
+        return df * factor
+
     #  *****PARTIAL*************************************************************
     def partial( self, xdata, param, useNum=False ):
         """
-- 
2.43.0


From 7e0f4e9de9261a7e9a73601bcfa655907a16b10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 009/144] fix: partial of a product or quotient of models with
 more outputs raised AttributeError

---
 BayesicFitting/source/Model.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 406b28d..01ed009 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -668,18 +668,18 @@ class Model( FixedModel ):
                         super( ).partial( xd, par ) )
 
         if self._operation == self.SUB :
-            nextpartial = numpy.negative( nextpartial )
+            nextpartial = ( [numpy.negative( n ) for n in nextpartial]
+                    if isinstance( nextpartial, list ) else numpy.negative( nextpartial ) )
 
         elif self._operation == self.MUL :
             nextres = super( Model, self ).result( xdata, par )
-            partial = numpy.multiply( partial.transpose(), nextres ).transpose()
-            nextpartial = numpy.multiply( nextpartial.transpose(), result ).transpose()
+            partial = self._scale( partial, nextres )
+            nextpartial = self._scale( nextpartial, result )
 
         elif self._operation == self.DIV :
             nextres = super( Model, self ).result( xdata, par )
-            partial = numpy.divide( partial.transpose(), nextres ).transpose()
-            invres = - result / ( nextres * nextres )
-            nextpartial = numpy.multiply( nextpartial.transpose(), invres ).transpose()
+            partial = self._scale( partial, 1 / nextres )
+            nextpartial = self._scale( nextpartial, - result / ( nextres * nextres ) )
 
         elif self._operation == self.PIP :
 
-- 
2.43.0


From 040104bedec2f73f76f951743c8fa502aeccd22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 010/144] fix: RepeatingModel.baseDerivative failed for models
 of more dimensions

---
 BayesicFitting/source/RepeatingModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index d26922f..aa47496 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -421,7 +421,7 @@ class RepeatingModel( Model, Dynamic ):
              values for the parameters
 
         """
-        dfdx = numpy.zeros( Tools.length( xdata ), dtype=float )
+        dfdx = numpy.zeros_like( xdata, dtype=float )
         if self.ncomp == 0 :
             return dfdx
 
-- 
2.43.0


From 77ce549fde1b7abcd0c23238e5bdf8c8aefe7269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 011/144] fix: StellarOrbitModel.partial returned a tuple which
 compound models cannot handle

---
 BayesicFitting/source/StellarOrbitModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/StellarOrbitModel.py b/BayesicFitting/source/StellarOrbitModel.py
index 5739de9..bc98825 100644
--- a/BayesicFitting/source/StellarOrbitModel.py
+++ b/BayesicFitting/source/StellarOrbitModel.py
@@ -389,7 +389,7 @@ class StellarOrbitModel( NonLinearModel ):
             partial1[:,k] = part1[kp]()
 
 
-        return ( partial0, partial1 )
+        return [ partial0, partial1 ]
 
 
     def baseName( self ):
-- 
2.43.0


From fb5340520a4176c98e5ef559b045b7ef6e9cd282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:11 +0000
Subject: [PATCH 012/144] fix: SoftMaxModel.basePartial returned columns for
 fixed parameters too

---
 BayesicFitting/source/SoftMaxModel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BayesicFitting/source/SoftMaxModel.py b/BayesicFitting/source/SoftMaxModel.py
index d11bd86..27b9ac9 100644
--- a/BayesicFitting/source/SoftMaxModel.py
+++ b/BayesicFitting/source/SoftMaxModel.py
@@ -179,6 +179,8 @@ class SoftMaxModel( NonLinearModel ):
         drdp = self.raster.partial( xdata, params )
 
         part = self.trans.pipe( dfdr, drdp )
+        if parlist is not None :
+            part = part[:,:,parlist]
 
         return part[0,:,:] if self.ndout == 1 else list( part ) 
 
-- 
2.43.0


From 9a960663f8d1bce35b4b2b24273e1a961bee169e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:11 +0000
Subject: [PATCH 013/144] fix: PseudoVoigtModel.basePartial failed when a
 parameter is fixed

---
 BayesicFitting/source/PseudoVoigtModel.py | 26 +++++++----------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/BayesicFitting/source/PseudoVoigtModel.py b/BayesicFitting/source/PseudoVoigtModel.py
index e98b035..7abecc4 100644
--- a/BayesicFitting/source/PseudoVoigtModel.py
+++ b/BayesicFitting/source/PseudoVoigtModel.py
@@ -158,25 +158,15 @@ class PseudoVoigtModel( NonLinearModel ):
             list of indices active parameters (or None for all)
 
         """
-        pl = parlist
-        if parlist is not None and 3 in pl :
-            pl = parlist.copy()
-            pl.remove( 3 )
-
         pars = params[:3]
-        partial = ( params[3] * self.lorentz.basePartial( xdata, pars, parlist=pl ) +
-                 ( 1 - params[3] ) * self.gauss.basePartial( xdata, pars, parlist=pl ) )
-
-        if parlist is None or 3 in parlist :
-            part3 = self.lorentz.baseResult( xdata, pars ) - self.gauss.baseResult( xdata, pars )
-            (n0,n1) = partial.shape
-            shp = ( n0, n1+1 )
-            pp = numpy.zeros( shp, dtype=float )
-            pp[:,:n1] = partial
-            pp[:,n1] = part3
-            partial = pp
-
-        return partial
+        part0 = self.lorentz.basePartial( xdata, pars ).transpose()
+        part1 = self.gauss.basePartial( xdata, pars ).transpose()
+
+        partial = numpy.zeros( ( part0.shape[1], 4 ), dtype=float )
+        partial[:,:3] = ( params[3] * part0 + ( 1 - params[3] ) * part1 ).transpose()
+        partial[:,3] = self.lorentz.baseResult( xdata, pars ) - self.gauss.baseResult( xdata, pars )
+
+        return partial if parlist is None else partial[:,parlist]
 
     def baseDerivative( self, xdata, params ) :
         """
-- 
2.43.0


From ce84d72e64c3ce3d167fc3e3850b39e33d9bc60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:11 +0000
Subject: [PATCH 014/144] fix: PowerModel.basePartial raised IndexError when
 its parameter is fixed

---
 BayesicFitting/source/PowerModel.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/BayesicFitting/source/PowerModel.py b/BayesicFitting/source/PowerModel.py
index 2387ac2..3471341 100644
--- a/BayesicFitting/source/PowerModel.py
+++ b/BayesicFitting/source/PowerModel.py
@@ -124,11 +124,9 @@ class PowerModel( LinearModel ):
             list of indices active parameters (or None for all)
 
         """
-        if parlist is None or parlist[0] == 0 :
-            inp = numpy.asarray( [xdata] ).transpose()
-            return numpy.power( inp, self.exponent )
-        else :
-            return numpy.asarray( [] )
+        inp = numpy.asarray( [xdata] ).transpose()
+        partial = numpy.power( inp, self.exponent )
+        return partial if parlist is None else partial[:,parlist]
 
     def baseDerivative( self, xdata, params ) :
         """
-- 
2.43.0


From 2e687a86ca2c8b7bdc50853885756e6c8839179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:11 +0000
Subject: [PATCH 015/144] fix: SplinesModel.baseDerivative failed when a
 parameter is fixed

---
 BayesicFitting/source/SplinesModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/SplinesModel.py b/BayesicFitting/source/SplinesModel.py
index 60240d0..66a7482 100644
--- a/BayesicFitting/source/SplinesModel.py
+++ b/BayesicFitting/source/SplinesModel.py
@@ -239,7 +239,7 @@ class SplinesModel( LinearModel ):
 
         """
         ff = numpy.append( numpy.arange( self.order + 1, dtype=float ),
-                           numpy.full( self.npbase - self.order - 1, self.order, dtype=float ) )
+                           numpy.full( self.npmax - self.order - 1, self.order, dtype=float ) )
         pars = params * ff
         pars = pars[1:]
         return SplinesModel( knots=self.knots, order=self.order-1 ).result( xdata, pars )
-- 
2.43.0


From d9a9b955c2bab807e4635e8fab55901707233e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 016/144] fix: FreeShapeModel ignored the fixed keyword

---
 BayesicFitting/source/FreeShapeModel.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/BayesicFitting/source/FreeShapeModel.py b/BayesicFitting/source/FreeShapeModel.py
index 4432c0d..23bede2 100644
--- a/BayesicFitting/source/FreeShapeModel.py
+++ b/BayesicFitting/source/FreeShapeModel.py
@@ -122,7 +122,7 @@ class FreeShapeModel( LinearModel ):
             highest value in xdata
 
         """
-        super( FreeShapeModel, self ).__init__( npix, copy=copy )
+        super( FreeShapeModel, self ).__init__( npix, copy=copy, **kwargs )
 
         if copy is None :
             if shape is None :
@@ -141,7 +141,7 @@ class FreeShapeModel( LinearModel ):
 
     def copy( self ):
         """ Copy method.  """
-        return FreeShapeModel( self.npbase,  copy=self )
+        return FreeShapeModel( self.npmax,  copy=self )
 
     def __setattr__( self, name, value ) :
         if name == "shape" :
@@ -151,7 +151,7 @@ class FreeShapeModel( LinearModel ):
             setatt( self, name, value, type=float )
             return
         if name == "xhi" :
-            setatt( self, name, self.npbase if value is None else value, type=float )
+            setatt( self, name, self.npmax if value is None else value, type=float )
             return
         if name == "center" and ( 0 <= value <= 1 ) :
             setatt( self, name, value, type=float )
@@ -212,11 +212,11 @@ class FreeShapeModel( LinearModel ):
         self.checkDomain( xdata )
 
         nxdata = Tools.length( xdata )
-        xpix = self.npbase * ( xdata - self.xlo ) / ( self.xhi - self.xlo )
+        xpix = self.npmax * ( xdata - self.xlo ) / ( self.xhi - self.xlo )
         xpix += self.center
 
         if parlist is None :
-            parlist = [k for k in range( self.npbase )]
+            parlist = [k for k in range( self.npmax )]
         np = len( parlist )
 
         partial = numpy.zeros( ( nxdata, np ), dtype=float )
@@ -242,7 +242,7 @@ class FreeShapeModel( LinearModel ):
 
         """
         nxdata = Tools.length( xdata )
-        xpix = self.npbase * ( xdata - self.xlo ) / ( self.xhi - self.xlo )
+        xpix = self.npmax * ( xdata - self.xlo ) / ( self.xhi - self.xlo )
         xpix += self.center
 
         partial = numpy.zeros( ( nxdata, self.npbase ), dtype=float )
-- 
2.43.0


From ef3d814b400da96eab8c29b1eeb90c547c3c4dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 017/144] fix: SplinesModel.basePartial ignored the order of
 parlist, when parameters are fixed by models

---
 BayesicFitting/source/SplinesModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/SplinesModel.py b/BayesicFitting/source/SplinesModel.py
index 66a7482..e89be58 100644
--- a/BayesicFitting/source/SplinesModel.py
+++ b/BayesicFitting/source/SplinesModel.py
@@ -220,7 +220,7 @@ class SplinesModel( LinearModel ):
             i += 1
         partial[ki,i] = x[ki]
 
-        if parlist is None or len( parlist ) == np :
+        if parlist is None :
             return partial
 
         return partial[:,parlist]
-- 
2.43.0


From 2f7d6b532b5546dcada56216147b27a9a7439f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:05 +0000
Subject: [PATCH 018/144] fix: UniformErrorDistribution.logLdata failed for
 multiple outputs and ignored cyclic residuals

---
 BayesicFitting/source/UniformErrorDistribution.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/BayesicFitting/source/UniformErrorDistribution.py b/BayesicFitting/source/UniformErrorDistribution.py
index 6b42734..1b76121 100644
--- a/BayesicFitting/source/UniformErrorDistribution.py
+++ b/BayesicFitting/source/UniformErrorDistribution.py
@@ -172,11 +172,9 @@ class UniformErrorDistribution( ScaledErrorDistribution ):
             as calculated by the model
 
         """
-        if mockdata is None :
-            mockdata = problem.result( allpars[:-1] )
         scale = allpars[-1] if not problem.hasAccuracy else problem.accuracy
 
-        ares = numpy.abs( problem.ydata - mockdata )
+        ares = numpy.abs( problem.residuals( allpars[:-1], mockdata=mockdata ) )
 
         lld = numpy.where( ares < scale, -numpy.log( 2 * scale ), -math.inf )
         if problem.weights is not None :
-- 
2.43.0


From 1345264599dae876ab412995722210ed60ffe862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:05 +0000
Subject: [PATCH 019/144] fix: Gauss2dErrorDistribution was not normalised to 1
 / ( 2 pi sqrt( det ) )

---
 BayesicFitting/source/Gauss2dErrorDistribution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/Gauss2dErrorDistribution.py b/BayesicFitting/source/Gauss2dErrorDistribution.py
index 7b66d74..96f2487 100644
--- a/BayesicFitting/source/Gauss2dErrorDistribution.py
+++ b/BayesicFitting/source/Gauss2dErrorDistribution.py
@@ -139,11 +139,11 @@ class Gauss2dErrorDistribution( GaussErrorDistribution ):
 
         if problem.weights is None :
             if det.size == 1 : 
-                norm = problem.ndata * ( self.LOG2PI + math.log( det ) )
+                norm = problem.ndata * ( 2 * self.LOG2PI + math.log( det ) )
             else :
-                norm = problem.ndata * self.LOG2PI + numpy.sum( numpy.log( det ) )  
+                norm = 2 * problem.ndata * self.LOG2PI + numpy.sum( numpy.log( det ) )
         else :
-            norm = numpy.sum( problem.weights * ( LOG2PI + numpy.log( det ) ) ) 
+            norm = numpy.sum( problem.weights * ( 2 * self.LOG2PI + numpy.log( det ) ) )
 
         return -0.5 * ( norm + chisq )
 
@@ -167,7 +167,7 @@ class Gauss2dErrorDistribution( GaussErrorDistribution ):
 
         rot2 = problem.weightedResSq( allpars, mockdata=mockdata )
 
-        norm = self.LOG2PI + numpy.log( det )
+        norm = 2 * self.LOG2PI + numpy.log( det )
         if problem.weights is not None :
             norm *= problem.weights
 
-- 
2.43.0


From c6f3c4cb979844445d399f1bddd99a40e9878cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:06 +0000
Subject: [PATCH 020/144] fix: LaplaceErrorDistribution.partialLogL_alt missed
 a factor 1/scale in the derivative to the scale

---
 BayesicFitting/source/LaplaceErrorDistribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/LaplaceErrorDistribution.py b/BayesicFitting/source/LaplaceErrorDistribution.py
index 91bf692..e9c3564 100644
--- a/BayesicFitting/source/LaplaceErrorDistribution.py
+++ b/BayesicFitting/source/LaplaceErrorDistribution.py
@@ -231,7 +231,7 @@ class LaplaceErrorDistribution( ScaledErrorDistribution ):
                 dL[i] = numpy.sum( wgt * dM[:,k] )
                 i += 1
             else :
-                dL[-1] = self.getSumRes( problem, allpars=allpars, scale=scale ) - problem.sumweight
+                dL[-1] = ( self.getSumRes( problem, allpars=allpars, scale=scale ) - problem.sumweight ) / scale
         return dL
 
     def nextPartialData( self, problem, allpars, fitIndex, mockdata=None ) :
-- 
2.43.0


From 4aed680664c54b410e0f865e03bd8237f868241a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:06 +0000
Subject: [PATCH 021/144] fix: BernoulliErrorDistribution.partialLogL_alt had
 the wrong sign for the second category and ignored fitIndex

---
 BayesicFitting/source/BernoulliErrorDistribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/BernoulliErrorDistribution.py b/BayesicFitting/source/BernoulliErrorDistribution.py
index 26b9b78..63c3116 100644
--- a/BayesicFitting/source/BernoulliErrorDistribution.py
+++ b/BayesicFitting/source/BernoulliErrorDistribution.py
@@ -176,9 +176,9 @@ class BernoulliErrorDistribution( ErrorDistribution ):
         dLdM = numpy.zeros_like( mock )
 
         if problem.model.lastndout == 1 :
-            dLdM = 1.0 / numpy.where( problem.ydata == 0, mock, 1 - mock )
+            dLdM = 1.0 / numpy.where( problem.ydata == 0, mock, mock - 1 )
             dL = numpy.sum( numpy.multiply( dLdM, dM.T ), axis=1 )
-            return dL
+            return dL[fitIndex]
 
         for k in range( problem.model.lastndout ) :
             q = numpy.where( problem.ydata == k )
@@ -186,7 +186,7 @@ class BernoulliErrorDistribution( ErrorDistribution ):
 
         dL = numpy.tensordot( dLdM, numpy.asarray( dM ), axes=([0,1],[1,0]) )
 
-        return dL
+        return dL[fitIndex]
 
     def nextPartialData( self, problem, allpars, fitIndex, mockdata=None ) :
         """
-- 
2.43.0


From 38e56146ed8498f76f357f7fcf2fbbbf8ce64de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 022/144] fix: Gauss2dErrorDistribution.partialLogL_alt failed
 when each datum has its own accuracy

---
 BayesicFitting/source/Gauss2dErrorDistribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Gauss2dErrorDistribution.py b/BayesicFitting/source/Gauss2dErrorDistribution.py
index 96f2487..c32c082 100644
--- a/BayesicFitting/source/Gauss2dErrorDistribution.py
+++ b/BayesicFitting/source/Gauss2dErrorDistribution.py
@@ -209,8 +209,8 @@ class Gauss2dErrorDistribution( GaussErrorDistribution ):
         for  k in fitIndex :
             if k < 0 :              # model accuracy
                 wgt = 1 if problem.weights is None else problem.weights
-                dL[-1] = - modelscale / det * numpy.sum( ( problem.varxx + problem.varyy +
-                    2 * modelscale * modelscale ) * ( wgt - rot2 ) + res2 ) 
+                dL[-1] = - modelscale * numpy.sum( ( ( problem.varxx + problem.varyy +
+                    2 * modelscale * modelscale ) * ( wgt - rot2 ) + res2 ) / det )
             else :
                 dL[i] = numpy.sum( res * dM[:,k] )
                 i += 1
-- 
2.43.0


From 1e720776c4cf44a1e29dafc5e389d5aef6f4f851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 023/144] fix: MixedErrorDistribution.nextPartialData took all
 hyperparameters as the scale, also the power of the
 ExponentialErrorDistribution

---
 BayesicFitting/source/MixedErrorDistribution.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/BayesicFitting/source/MixedErrorDistribution.py b/BayesicFitting/source/MixedErrorDistribution.py
index 89f013a..51570af 100644
--- a/BayesicFitting/source/MixedErrorDistribution.py
+++ b/BayesicFitting/source/MixedErrorDistribution.py
@@ -192,10 +192,11 @@ class MixedErrorDistribution( ErrorDistribution ):
         q = numpy.where( fitIndex >= 0 )
         f1 = fitIndex[q]
         f2 = f1.copy()
-        if -3 in fitIndex :
-            f1 = numpy.append( f1, [-1] )
-        if -2 in fitIndex :
-            f2 = numpy.append( f2, [-1] )
+        # hyperparameters are ordered as: those of errdis1, those of errdis2, f
+        q = numpy.where( fitIndex < - n2 - 1 )
+        f1 = numpy.append( f1, fitIndex[q] + n2 + 1 )
+        q = numpy.where( ( fitIndex >= - n2 - 1 ) & ( fitIndex < -1 ) )
+        f2 = numpy.append( f2, fitIndex[q] + 1 )
 
         # make fitindices (f1,f2) for errdis1&2
         lhd1 = numpy.exp( self.errdis1.logLdata( problem, p1, mockdata=mockdata ) )
@@ -225,12 +226,12 @@ class MixedErrorDistribution( ErrorDistribution ):
             if fi == -1 :           ## partialLogL for fraction f
                 yield ( ( lhd1 - lhd2 ) * fff )
 
-            elif fi == -2 :         ## partialLogL for sigma of errdis2
+            elif - n2 - 1 <= fi < -1 :      ## partialLogL for hyperparameters of errdis2
                 npg2 = next( pg2 )
 
                 yield ( emf * lhd2 * fff * npg2 )
 
-            elif fi == -3 :         ## partialLogL for sigma of errdis1
+            elif fi < - n2 - 1 :            ## partialLogL for hyperparameters of errdis1
                 npg1 = next( pg1 )
 
                 yield ( f * lhd1 * fff * npg1 )
-- 
2.43.0


From accff094260538bc49f1f05d7a8322dccaee658b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 024/144] fix: Priors with limits set, changed or removed after
 construction had an improperly normalised density

---
 BayesicFitting/source/Prior.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/Prior.py b/BayesicFitting/source/Prior.py
index c910226..d5c3add 100644
--- a/BayesicFitting/source/Prior.py
+++ b/BayesicFitting/source/Prior.py
@@ -191,12 +191,16 @@ class Prior( object ):
         try :
             self._umin = 0.0            ## only for re-setting the limits
             self._urng = 1.0
-            umax = self.domain2Unit( self.highLimit )
-            self._umin = self.domain2Unit( self.lowLimit )
+            d2u = getattr( self, "baseDomain2Unit", self.domain2Unit )
+            umax = d2u( self.highLimit )
+            self._umin = d2u( self.lowLimit )
             self._urng = umax - self._umin
         except Exception :
             self._urng = math.inf
 
+        if hasattr( self, "limint" ) :
+            self.limint = self._urng    ## integral over the present limits
+
 #        print( "Prior 3 ", self._umin, self._urng )
 
         if math.isinf( self._urng ) :
@@ -316,8 +320,7 @@ class Prior( object ):
 
     def unsetLimits( self ):
         """ Remove all limits.  """
-        self.lowLimit = self._lowDomain
-        self.highLimit = self._highDomain
+        self.setLimits()
 
     def setAttributes( self, limits=None, scale=None ) :
         """
-- 
2.43.0


From cc31583b5991883515e022cdf6293bf896aadf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 025/144] fix: Prior.setAttributes changed the scale, but not
 the normalisation of a prior with limits

---
 BayesicFitting/source/Prior.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Prior.py b/BayesicFitting/source/Prior.py
index d5c3add..d19827b 100644
--- a/BayesicFitting/source/Prior.py
+++ b/BayesicFitting/source/Prior.py
@@ -333,10 +333,12 @@ class Prior( object ):
         scale : float or None
             scale factor
         """
-        if limits is not None :
-            self.setLimits( limits=limits )
         if scale is not None :
             self.scale = scale
+            if limits is None and self.hasLimits() :
+                limits = self.limits            ## update for the new scale
+        if limits is not None :
+            self.setLimits( limits=limits )
 
     def isOutOfLimits( self, par ):
         """
-- 
2.43.0


From 5cc6e06ca9b0940c2a21ba0ec4b4888f7c1a6871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 026/144] fix: Model.setLimits raised UnboundLocalError when
 only low or only high limits are given

---
 BayesicFitting/source/Model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 01ed009..74d5102 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1167,7 +1167,7 @@ class Model( FixedModel ):
             upper limits on the parameters
 
         """
-        ml = 0
+        ml = nl = nh = 0
         if lowLimits is not None :
             lowLimits = Tools.toArray( lowLimits )
             nl = len( lowLimits )
-- 
2.43.0


From 258ab4cfbcbfc19666ce3ce3f6e0b6188a05be89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 027/144] fix: unit2Domain and domain2Unit of all parameters
 failed for models with brackets, repeating models and models without
 parameters

---
 BayesicFitting/source/Model.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 74d5102..a3e8e8d 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1307,17 +1307,10 @@ class Model( FixedModel ):
         return part
 
     def nextPrior( self ) :
-        mdl = self
         k = 0
         while True :
-            try :
-                yield mdl.priors[k]
-            except :
-                yield mdl.priors[-1]
+            yield self.getPrior( k )
             k += 1
-            if k >= mdl.npbase :
-                mdl = mdl._next
-                k = 0
 
 
     #  *****SOME DUMMY METHODS TO ALLOW LINEAR MODELS IN NONLIN FITTERS********
@@ -1843,9 +1836,6 @@ class Brackets( Model ):
         return self.model.getPrior( kpar )
     """
 
-    def nextPrior( self ) :
-        yield self.model.nextPrior()
-
     def _toString( self, indent="", npars=0 ) :
         opname = [" null\n", " +\n", " -\n", " *\n", " /\n", " |\n" ]
         np = self.npbase
-- 
2.43.0


From fe3e304ff7bcf9f977a27949e665e113ef0d1c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 028/144] fix: hasPriors and hasLimits of compound models
 ignored the other components and the models within brackets

---
 BayesicFitting/source/Model.py          | 38 +++++++------------------
 BayesicFitting/source/RepeatingModel.py |  4 +--
 2 files changed, 12 insertions(+), 30 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index a3e8e8d..97f2843 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1033,12 +1033,10 @@ class Model( FixedModel ):
         isBound : bool
             Also check if the prior is bound.
         """
-        hasp = True
-        mdl = self
-        while mdl is not None and hasp :
-            hasp = hasp and super( Model, self ).hasPriors( isBound=isBound )
-            mdl = mdl._next
-        return hasp
+        try :
+            return all( [self.getPrior( k ).isBound() or not isBound for k in range( self.npchain )] )
+        except IndexError :
+            return False
 
     def getPrior( self, kpar ):
         """
@@ -1226,17 +1224,12 @@ class Model( FixedModel ):
         fitindex    list of indices to be fitted.
 
         """
-        haslim = True
-        mdl = self
-        while mdl is not None :
-            haslim = haslim and super( Model, mdl ).hasLimits( fitindex=fitindex )
-            if not haslim :
-                return haslim
-            if fitindex is not None :
-                q = numpy.where( fitindex >= mdl.npbase )
-                fitindex = fitindex[q] - mdl.npbase
-            mdl = mdl._next
-        return haslim
+        if fitindex is None :
+            fitindex = range( self.npchain )
+        try :
+            return all( [self.getPrior( k ).hasLimits() for k in fitindex] )
+        except IndexError :
+            return False
 
 
     #  ****** UNIT <--> DOMAIN ********************************************
@@ -1865,17 +1858,6 @@ class Brackets( Model ):
         """
         return self.model.getPrior( k )
 
-    def hasPriors( self, isBound=True ) :
-        """
-        Return True when the model has priors for all its parameters.
-
-        Parameters
-        ----------
-        isBound : bool
-            Also check if the prior is bound.
-        """
-        return self.model.hasPriors( isBound=isBound )
-
 
     #  ******Brackets Parameter NAME*******************************************************************
 
diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index aa47496..f585e63 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -469,8 +469,8 @@ class RepeatingModel( Model, Dynamic ):
             raise IndexError( "RepeatingModel cannot have more priors than %s" %
                                self.model.shortname() )
 
-    def hasPriors( self ) :
-        return self.model.hasPriors()
+    def hasPriors( self, isBound=True ) :
+        return self.model.hasPriors( isBound=isBound ) and super().hasPriors( isBound=isBound )
 
     def basePrior( self, kpar ):
         """
-- 
2.43.0


From 0d73e13456df111ff495d1a9d8eff3753fff8682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 029/144] fix: the priors of models added to a RepeatingModel
 could not be set

---
 BayesicFitting/source/RepeatingModel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index f585e63..8464085 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -465,6 +465,8 @@ class RepeatingModel( Model, Dynamic ):
         """
         if kpar < self.model.npars :
             self.model.setPrior( kpar, prior=prior, **kwargs )
+        elif kpar >= self.npbase and self._next is not None :
+            self._next.setPrior( kpar - self.npbase, prior=prior, **kwargs )
         else :
             raise IndexError( "RepeatingModel cannot have more priors than %s" %
                                self.model.shortname() )
-- 
2.43.0


From bcb2a4e01e93f92d78bd88f6b0a3954a217c823e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:23 +0000
Subject: [PATCH 030/144] fix: kernels without resultsq (Sinc, Triangle,
 Tricube) and Tophat could not be used in Kernel2dModel

Tophat.resultsq returned the result at the square; the others returned None.
---
 BayesicFitting/source/kernels/Kernel.py | 3 ++-
 BayesicFitting/source/kernels/Tophat.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/kernels/Kernel.py b/BayesicFitting/source/kernels/Kernel.py
index b633d70..c4ce27e 100644
--- a/BayesicFitting/source/kernels/Kernel.py
+++ b/BayesicFitting/source/kernels/Kernel.py
@@ -1,3 +1,4 @@
+import numpy as numpy
 
 __author__ = "Do Kester"
 __year__ = 2017
@@ -128,7 +129,7 @@ class Kernel( object ):
         Parameters: x the square of the input value
 
         """
-        pass
+        return self.result( numpy.sqrt( xsq ) )
 
     def partial( self, x ):
         """
diff --git a/BayesicFitting/source/kernels/Tophat.py b/BayesicFitting/source/kernels/Tophat.py
index 0c18024..0dc2515 100644
--- a/BayesicFitting/source/kernels/Tophat.py
+++ b/BayesicFitting/source/kernels/Tophat.py
@@ -83,7 +83,7 @@ class Tophat( Kernel ):
         return self.conv.result( x )
 
     def resultsq( self, xsq ):
-        return self.result( xsq )                   #  the same
+        return self.result( numpy.sqrt( xsq ) )
 
     def partial( self, x ):
         return self.conv.partial( x )
-- 
2.43.0


From 45d101fd4be52d372f266c577d757358e95b44f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:37 +0000
Subject: [PATCH 031/144] fix: Kernel2dModel.derivative returned nan at the
 center

---
 BayesicFitting/source/Kernel2dModel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/Kernel2dModel.py b/BayesicFitting/source/Kernel2dModel.py
index 3b05ada..3681bf8 100644
--- a/BayesicFitting/source/Kernel2dModel.py
+++ b/BayesicFitting/source/Kernel2dModel.py
@@ -266,6 +266,7 @@ class BaseShape2d( object ):
         x = ( xdata[:,0] - params[1] ) / params[3]
         y = ( xdata[:,1] - params[2] ) / params[kp]
         r = numpy.sqrt( x * x + y * y )
+        r = numpy.where( r == 0, 1.0, r )           # at the center x and y are 0 too
         drdx = x / r
         drdy = y / r
         df = [params[0] * self.kernel.partial( r ) * drdx / params[3],
-- 
2.43.0


From bd389f01e1cfd0d16fa8b0974b9200450ca0782e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 032/144] fix: npfit was the number of kept parameters in stead
 of the fitted ones, when keep is given to fit()

---
 BayesicFitting/source/BaseFitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 4082a88..b969816 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -311,9 +311,9 @@ class BaseFitter( object ):
             return None
         else :
 #            print( "Keep  ", keep )
-            self.npfit = len( keep )
             fitIndex = numpy.arange( self.model.npchain )      # start from scratch
             fitIndex = numpy.setxor1d( fitIndex, list( keep.keys() ) )
+            self.npfit = len( fitIndex )
             self.model.parameters[list(keep.keys())] = list( keep.values() )
             return fitIndex
 
-- 
2.43.0


From fa4e38bdaf673e3cfc7d7cebc37a4d99e1adb06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 033/144] fix: covariance, stdevs, evidence and error bars
 ignored the keep given to fit()

They were made for the parameters kept at construction. Those were also not reset to
their values after a fit with another keep.
---
 BayesicFitting/source/BaseFitter.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index b969816..fd7fbbf 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -196,6 +196,7 @@ class BaseFitter( object ):
         self.model = model
         self.keep = keep
         self.fitIndex = self.keepFixed( keep )
+        self.lastIndex = self.fitIndex          # indices fitted in the last fit
         self.fixedScale = fixedScale
 
         if self.ndim != model.ndim:
@@ -268,13 +269,17 @@ class BaseFitter( object ):
             self.fitWgts /= ( accuracy * accuracy )
            
         if keep is not None :
-            return ( self.keepFixed( keep ), ydata, self.fitWgts )
+            self.lastIndex = self.keepFixed( keep )
+            return ( self.lastIndex, ydata, self.fitWgts )
 
+        self.lastIndex = self.fitIndex
         if self.fitIndex is None :
             self.npfit = self.model.npchain
             return ( numpy.arange( self.model.npchain, dtype=int ), 
                      ydata, self.fitWgts )
 
+        if self.keep is not None :
+            self.keepFixed( self.keep )
         self.npfit = len( self.fitIndex )
         return ( self.fitIndex, ydata, self.fitWgts )
 
@@ -629,7 +634,7 @@ class BaseFitter( object ):
         Stdevs are found from this as np.sqrt( np.diag( covarianceMatrix ) )
 
         """
-        cov =  self.getInverseHessian( index=self.fitIndex ) * self.makeVariance()
+        cov =  self.getInverseHessian( index=self.lastIndex ) * self.makeVariance()
         return cov
 
     #  *************************************************************************
@@ -765,11 +770,11 @@ class BaseFitter( object ):
         cov = self.covariance
 
         stdevs = numpy.sqrt( cov.diagonal() )
-        if self.keep is None :
+        if self.lastIndex is None :
             self.model.stdevs = stdevs
         else :
             intostd = numpy.zeros( self.model.npchain, dtype=float )
-            self.model.stdevs = self.insertParameters( stdevs, into=intostd )
+            self.model.stdevs = self.insertParameters( stdevs, index=self.lastIndex, into=intostd )
 
         return self.model.stdevs
 
@@ -798,7 +803,7 @@ class BaseFitter( object ):
         if xdata is None : xdata = self.xdata
         if monteCarlo is None :
             monteCarlo = MonteCarlo( xdata, self.model, self.covariance,
-                                          index=self.fitIndex )
+                                          index=self.lastIndex )
 
         return monteCarlo.getError( xdata )
 
@@ -941,8 +946,8 @@ class BaseFitter( object ):
 
         if priorlength == 1 :
             spr += prirange[0]
-        elif limits is None and self.fitIndex is not None :
-            fi = self.fitIndex
+        elif limits is None and self.lastIndex is not None :
+            fi = self.lastIndex
             q = numpy.where( fi < priorlength )
             fq = fi[q]
             priorlength = len( fq )
-- 
2.43.0


From f9c4d5a2360791cc8b6ea7e11911d970499df949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 034/144] fix: the attribute hessian, and the evidence, could
 be those of a previous fit or of all parameters when some are kept

---
 BayesicFitting/source/BaseFitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index fd7fbbf..2fff6bb 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -259,6 +259,7 @@ class BaseFitter( object ):
 
         self.weights = weights
         self.accuracy = accuracy
+        self.__dict__.pop( "hessian", None )        # it belongs to the previous fit
 
         self.fitWgts = 1.0
         self.sumwgt = self.nxdata
@@ -521,7 +522,7 @@ class BaseFitter( object ):
         elif name == 'design' :
             return self.getDesign()
         elif name == 'hessian' :
-            return self.getHessian()
+            return self.getHessian( index=self.lastIndex )
         elif name == 'covariance' :
             return self.getCovarianceMatrix()
         elif name == 'stdevs' or name == 'standardDeviations' :
-- 
2.43.0


From efb3c1e6455c3d759e584550b293f3360ef6fd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 035/144] fix: logLikelihood of a fit with weights and
 accuracies did not weight the accuracies

---
 BayesicFitting/source/BaseFitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 2fff6bb..e49f18b 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -870,7 +870,8 @@ class BaseFitter( object ):
 
         if self.accuracy is not None :
             if Tools.length( self.accuracy ) > 1 :
-                slacc = numpy.sum( numpy.log( self.accuracy ) )
+                slacc = numpy.log( self.accuracy )
+                slacc = numpy.sum( slacc if self.weights is None else self.weights * slacc )
             else :
                 slacc = self.sumwgt * numpy.log( self.accuracy )
         else :
-- 
2.43.0


From 6cf01ab93339ac2814b95f2b9acef8d9d3660318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 036/144] fix: QRFitter minimised the residuals with the
 squares of the weights

And it failed on more than one normalisation.
---
 BayesicFitting/source/QRFitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/QRFitter.py b/BayesicFitting/source/QRFitter.py
index b0be4f6..b69aa62 100644
--- a/BayesicFitting/source/QRFitter.py
+++ b/BayesicFitting/source/QRFitter.py
@@ -153,10 +153,10 @@ class QRFitter( BaseFitter ):
 #        wgts = ( numpy.ones_like( ydata, dtype=float ) if fitwgts is None else
 #                 numpy.sqrt( fitwgts ) )
 
-        wgts = numpy.full_like( ydata, fitwgts, dtype=float )
+        wgts = numpy.sqrt( numpy.full_like( ydata, fitwgts, dtype=float ) )
 
         if hasattr( self, "normdata" ) :
-            normweight = math.sqrt( self.normweight )
+            normweight = numpy.sqrt( self.normweight )
             ydatacopy = numpy.append( ydatacopy, self.normdata )
             wgts = numpy.append( wgts, normweight )
 
-- 
2.43.0


From faf25ed58c0f92bd9e730dfa1a6c62113b43af78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 037/144] fix: QRFitter used the decomposition of the previous
 fit for data with other weights, accuracies or kept parameters

---
 BayesicFitting/source/QRFitter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/QRFitter.py b/BayesicFitting/source/QRFitter.py
index b69aa62..9ffd90e 100644
--- a/BayesicFitting/source/QRFitter.py
+++ b/BayesicFitting/source/QRFitter.py
@@ -162,7 +162,8 @@ class QRFitter( BaseFitter ):
 
         ydatacopy = ydatacopy * wgts
 
-        if self.needsNewDecomposition or weights is not None:
+        if ( self.needsNewDecomposition or not numpy.array_equal( wgts, self.qrwgts )
+                or not numpy.array_equal( fi, self.qrindex ) ) :
             design = ( self.getDesign( index=fi ).transpose() * wgts ).transpose()
 
             # The QR decomposition in numpy has a different interface from that in scipy.
@@ -171,6 +172,8 @@ class QRFitter( BaseFitter ):
 
             q, r = numpy.linalg.qr( design )
             self.qrmat = numpy.dot( numpy.linalg.inv( r ), q.transpose() )
+            self.qrwgts = wgts
+            self.qrindex = fi
             self.needsNewDecomposition = False
 
         params = numpy.dot( self.qrmat, ydatacopy )
-- 
2.43.0


From 4991f9c0a25b6b65ad8200f4274a03faef026870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 038/144] fix: chisq of a model without parameters ignored the
 weights

---
 BayesicFitting/source/Fitter.py   | 2 +-
 BayesicFitting/source/QRFitter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Fitter.py b/BayesicFitting/source/Fitter.py
index 0b1e9c8..7bde7f9 100644
--- a/BayesicFitting/source/Fitter.py
+++ b/BayesicFitting/source/Fitter.py
@@ -130,7 +130,7 @@ class Fitter( BaseFitter ):
                     accuracy=accuracy, keep=keep )
 
         if self.model.isNullModel() :
-            self.chiSquared( ydata, fitWgts )
+            self.chiSquared( ydata, weights=fitWgts )
             return numpy.asarray( 0 )
 
         hessian = self.getHessian( weights=fitWgts, index=fitIndex )
diff --git a/BayesicFitting/source/QRFitter.py b/BayesicFitting/source/QRFitter.py
index 9ffd90e..bf18701 100644
--- a/BayesicFitting/source/QRFitter.py
+++ b/BayesicFitting/source/QRFitter.py
@@ -140,7 +140,7 @@ class QRFitter( BaseFitter ):
                         accuracy=accuracy, keep=keep )
 
         if self.model.isNullModel() :
-            self.chiSquared( ydata, fitwgts )
+            self.chiSquared( ydata, weights=fitwgts )
             return numpy.asarray( 0 )
 
         ydatacopy = ydata.copy( )
-- 
2.43.0


From 21bef92c56cd35a530bef2b5eb49211e6b268ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 039/144] fix: a normalisation of kept parameters was
 attributed to the other parameters

---
 BayesicFitting/source/Fitter.py   | 3 ++-
 BayesicFitting/source/QRFitter.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Fitter.py b/BayesicFitting/source/Fitter.py
index 7bde7f9..ac86776 100644
--- a/BayesicFitting/source/Fitter.py
+++ b/BayesicFitting/source/Fitter.py
@@ -144,7 +144,8 @@ class Fitter( BaseFitter ):
         if fitWgts is not None :
             ydatacopy *= fitWgts
         if hasattr( self, "normdfdp" ) :
-            ydatacopy = numpy.append( ydatacopy, self.normdata * self.normweight )
+            normdata = self.normdata - numpy.inner( self.normdfdp, fxpar )
+            ydatacopy = numpy.append( ydatacopy, normdata * self.normweight )
 
         vector = self.getVector( ydatacopy, index=fitIndex )
 #        print( fmt( hessian ) )
diff --git a/BayesicFitting/source/QRFitter.py b/BayesicFitting/source/QRFitter.py
index bf18701..88eb6de 100644
--- a/BayesicFitting/source/QRFitter.py
+++ b/BayesicFitting/source/QRFitter.py
@@ -157,7 +157,8 @@ class QRFitter( BaseFitter ):
 
         if hasattr( self, "normdata" ) :
             normweight = numpy.sqrt( self.normweight )
-            ydatacopy = numpy.append( ydatacopy, self.normdata )
+            normdata = self.normdata - numpy.inner( self.normdfdp, fxpar )
+            ydatacopy = numpy.append( ydatacopy, normdata )
             wgts = numpy.append( wgts, normweight )
 
         ydatacopy = ydatacopy * wgts
-- 
2.43.0


From 64c9847ddbe1be9c77737d7ea23b79f16e7f1be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 040/144] fix: the evidence integral over the noise scale had a
 wrong width and was penalised twice

In the Gaussian approximation the integral over log( scale ) is sqrt( pi / dof ); with a Jeffreys
prior it is divided once by the range in log( scale ).
---
 BayesicFitting/source/BaseFitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index e49f18b..02adb07 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -916,7 +916,7 @@ class BaseFitter( object ):
             scalerange = math.log( noiseLimits[1] ) - math.log( noiseLimits[0] )
             autoScale = True
             s2 = self.makeVariance( )
-            self.logOccam = 0.5 * math.log( math.pi * dof ) - scalerange
+            self.logOccam = 0.5 * math.log( math.pi / dof )
         else :
             autoScale = False
             scale = 1.0 if self.fixedScale is None else self.fixedScale
-- 
2.43.0


From bf702fb6aa794f2aa864c06b495537bb0ddc8439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:49 +0000
Subject: [PATCH 041/144] fix: the number of data in a map was taken as its
 number of rows

---
 BayesicFitting/source/BaseFitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 02adb07..b957523 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -190,7 +190,7 @@ class BaseFitter( object ):
 
             ndim = 1 if self.xdata.ndim <= 1 else self.xdata.shape[1]
 
-        ninp = Tools.length( xdata )
+        ninp = Tools.length( self.xdata if map else xdata )
         self.nxdata = ninp
         self.ndim = ndim
         self.model = model
-- 
2.43.0


From 8cc2417293dc3795f23ccac5cd008b8c989fe279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:49 +0000
Subject: [PATCH 042/144] fix: the evidence of a fit to a compound model used
 the priors of its first component only

---
 BayesicFitting/source/BaseFitter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index b957523..c283c78 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -935,11 +935,10 @@ class BaseFitter( object ):
         if self.npfit == 0 :
             return self.logLikelihood + self.logOccam
 
-        priors = self.model.priors
         if limits is not None :
             prirange = Tools.toArray( limits[1] ) - Tools.toArray( limits[0] )
         elif self.model.hasLimits() :
-            prirange = [p.getIntegral() for p in priors]        # convert to list
+            prirange = [self.model.getPrior( k ).getIntegral() for k in range( self.model.npchain )]
         elif self.model.npchain > 0 :
             raise ValueError( "No limits provided on the parameters. Cannot calculate evidence." )
 
-- 
2.43.0


From e88d4efd4ab6906585a50cda05910d27fdf5f94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 043/144] fix: ErrorsInXandYProblem.setAccuracy overwrote the
 accuracy given and used the 4th power of a single number

---
 BayesicFitting/source/ErrorsInXandYProblem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/ErrorsInXandYProblem.py b/BayesicFitting/source/ErrorsInXandYProblem.py
index a9b0761..ea6f009 100644
--- a/BayesicFitting/source/ErrorsInXandYProblem.py
+++ b/BayesicFitting/source/ErrorsInXandYProblem.py
@@ -225,9 +225,9 @@ class ErrorsInXandYProblem( Problem ):
                     if accuracy.shape[-1] == 3 :
                         varxy = accuracy[:,2]
 
-                varxy *= varyy * varxx
-                varyy *= varyy
-                varxx *= varxx
+                varxy = varxy * varyy * varxx
+                varyy = varyy * varyy
+                varxx = varxx * varxx
             else :
                 raise AttributeError( "Covar and Accuracy are mutually exclusive" )
 
-- 
2.43.0


From 85ad37563e430f473e812a0018da8d794dca36eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 044/144] fix: MultipleOutputProblem counted each datum only
 once in sumweight and could not handle lists or a single accuracy

---
 BayesicFitting/source/MultipleOutputProblem.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/BayesicFitting/source/MultipleOutputProblem.py b/BayesicFitting/source/MultipleOutputProblem.py
index eda8994..37b9e94 100644
--- a/BayesicFitting/source/MultipleOutputProblem.py
+++ b/BayesicFitting/source/MultipleOutputProblem.py
@@ -87,12 +87,26 @@ class MultipleOutputProblem( Problem ):
         return MultipleOutputProblem( copy=self )
 
 
+    def __getattr__( self, name ) :
+        """
+        Return the value of the attribute; each output counts as one datum.
+
+        """
+        if name == "ndata" :
+            self.ndata = self.ydata.size
+            return self.ndata
+        return super( ).__getattr__( name )
+
     def expandFlat( self, weights, ndout ) :
         """
         Expand and flatten the arrays.
 
         """
         if weights is not None :
+            weights = numpy.asarray( weights )
+            if weights.ndim == 0 :
+                return float( weights )
+
             if len( weights.shape ) == 1 :
                 wgts = numpy.zeros( ( len( weights ), ndout ), dtype=float )
                 for k in range( ndout ) :
-- 
2.43.0


From f7cc5a1ba2e992003c720a956a369e79c962a0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 045/144] fix: logLikelihood_alt counted the norm of one datum
 only when the accuracy is an integer number

---
 BayesicFitting/source/CauchyErrorDistribution.py      | 2 +-
 BayesicFitting/source/ExponentialErrorDistribution.py | 2 +-
 BayesicFitting/source/LaplaceErrorDistribution.py     | 2 +-
 BayesicFitting/source/UniformErrorDistribution.py     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/CauchyErrorDistribution.py b/BayesicFitting/source/CauchyErrorDistribution.py
index 71cbc1b..ff7d56e 100644
--- a/BayesicFitting/source/CauchyErrorDistribution.py
+++ b/BayesicFitting/source/CauchyErrorDistribution.py
@@ -150,7 +150,7 @@ class CauchyErrorDistribution( ScaledErrorDistribution ):
         s2 = numpy.square( scale )
         res = problem.residuals( allpars[:-1] )
         res2 = numpy.square( res )
-        if isinstance( scale, float ) :
+        if numpy.ndim( scale ) == 0 :
             logL = ( problem.ndata * ( math.log( scale ) - self.LOGPI ) -
                      numpy.sum( numpy.log( res2 + s2 ) ) )
         else :
diff --git a/BayesicFitting/source/ExponentialErrorDistribution.py b/BayesicFitting/source/ExponentialErrorDistribution.py
index 557c552..6626a1e 100644
--- a/BayesicFitting/source/ExponentialErrorDistribution.py
+++ b/BayesicFitting/source/ExponentialErrorDistribution.py
@@ -160,7 +160,7 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
 
         chipow = self.getChipow( problem, allpars, scale )
 
-        if isinstance( scale, float ) :
+        if numpy.ndim( scale ) == 0 :
             norm = problem.sumweight * math.log( 0.5 * power / scale )
         elif problem.hasWeights() :
             norm = numpy.sum( problem.weights * numpy.log( 0.5 * power / scale ) )
diff --git a/BayesicFitting/source/LaplaceErrorDistribution.py b/BayesicFitting/source/LaplaceErrorDistribution.py
index e9c3564..b3eb84d 100644
--- a/BayesicFitting/source/LaplaceErrorDistribution.py
+++ b/BayesicFitting/source/LaplaceErrorDistribution.py
@@ -165,7 +165,7 @@ class LaplaceErrorDistribution( ScaledErrorDistribution ):
 
         scale = allpars[-1] if not problem.hasAccuracy else problem.accuracy
         sumres = self.getSumRes( problem, allpars, scale=scale )
-        if isinstance( scale, float ) :
+        if numpy.ndim( scale ) == 0 :
             norm = problem.sumweight * ( self.LOG2 + math.log( scale ) ) 
         elif problem.hasWeights() :
             norm = numpy.sum( problem.weights * ( self.LOG2 + numpy.log( scale ) ) )
diff --git a/BayesicFitting/source/UniformErrorDistribution.py b/BayesicFitting/source/UniformErrorDistribution.py
index 1b76121..68e2790 100644
--- a/BayesicFitting/source/UniformErrorDistribution.py
+++ b/BayesicFitting/source/UniformErrorDistribution.py
@@ -147,7 +147,7 @@ class UniformErrorDistribution( ScaledErrorDistribution ):
         ares = numpy.abs( problem.residuals( allpars[:-1] ) )
 
         if all( ares < scale ) :
-            if isinstance( scale, float ) :
+            if numpy.ndim( scale ) == 0 :
                 return - numpy.log( 2 * scale ) * problem.sumweight
             elif problem.hasWeights() :
                 return - numpy.sum( numpy.log( 2 * scale ) * problem.weights )
-- 
2.43.0


From feaeef98e98943ddedaf8f8063ba5209e11cfd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 046/144] fix: a copy of a BracketModel lost its parameters,
 and had a wrong number of them when it heads a compound model

---
 BayesicFitting/source/Model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 97f2843..19a9a6e 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1736,7 +1736,8 @@ class Brackets( Model ):
         super( Brackets, self ).__init__( model.npchain, ndim=model.ndim,
                                 copy=copy, **kwargs )
         setatt( self, "model", model, type=Model )
-        setatt( self, "parameters", model.parameters )
+        if copy is None :
+            setatt( self, "parameters", model.parameters )
 
         next = model
         deep = 1
-- 
2.43.0


From a8037122f492666f7683883c86f44fb625161620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 047/144] fix: a copy of a CombiModel lost its parameters, its
 priors, and the models that are appended to it

---
 BayesicFitting/source/CombiModel.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/BayesicFitting/source/CombiModel.py b/BayesicFitting/source/CombiModel.py
index 3ca1902..0118fd6 100644
--- a/BayesicFitting/source/CombiModel.py
+++ b/BayesicFitting/source/CombiModel.py
@@ -156,7 +156,7 @@ class CombiModel( BracketModel ):
 
         """
         mdl = model.copy()
-        for k in range( 1, nrepeat ) :
+        for k in range( 1, nrepeat if copy is None else 1 ) :
             if oper == 'add' :
                 mdl.addModel( model.copy() )
             elif oper == 'mul' :
@@ -164,13 +164,11 @@ class CombiModel( BracketModel ):
             else :
                 raise ValueError( "Unknown operation : " + oper )
 
-        super( CombiModel, self ).__init__( mdl, **kwargs )
+        super( CombiModel, self ).__init__( mdl, copy=copy, **kwargs )
 
-        setatt( self, "nmp", model.npchain )
+        setatt( self, "nmp", model.npchain if copy is None else copy.nmp )
         setatt( self, "nrepeat", nrepeat )
-        setatt( self, "npcmax", model.npchain * nrepeat )
-
-        self.combine( addCombi=addCombi, mulCombi=mulCombi )
+        setatt( self, "npcmax", self.nmp * nrepeat )
 
         if copy is not None :
             setatt( self, "addindex", copy.addindex.copy() )
@@ -179,6 +177,9 @@ class CombiModel( BracketModel ):
             setatt( self, "mulvalue", copy.mulvalue.copy() )
             setatt( self, "select", copy.select.copy() )
             setatt( self, "expandindex", copy.expandindex.copy() )
+            return
+
+        self.combine( addCombi=addCombi, mulCombi=mulCombi )
 
         setatt( self, "_npchain", len( self.select ) )
         setatt( self, "npbase", self._npchain )
@@ -187,12 +188,7 @@ class CombiModel( BracketModel ):
 
     def copy( self ):
         """ Copy method.  """
-        oper = "add"
-        if self.model._next and self.model._next._operation == 3 :
-            oper = "mul"
-
-        return CombiModel( self.model.isolateModel( 0 ), nrepeat=self.nrepeat,
-                    oper=oper, copy=self )
+        return CombiModel( self.model, nrepeat=self.nrepeat, copy=self )
 
     def combine( self, addCombi=None, mulCombi=None ) :
         """
-- 
2.43.0


From 58c262c5b9300d9592f4ee7b42beac9e7acfd93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 048/144] fix: an isolated model shared its parameters with the
 compound model

---
 BayesicFitting/source/Model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 19a9a6e..a639b2f 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -304,10 +304,10 @@ class Model( FixedModel ):
 
                 n2 = np + last.npbase
                 # hard overwrite of the base parameters (over the chain parameters)
-                setatt( mdl, "parameters", self._head.parameters[np:n2] )
+                setatt( mdl, "parameters", self._head.parameters[np:n2].copy() )
 
                 if self.stdevs is not None :
-                    setatt( mdl, "stdevs", self._head.stdevs[np:n2] )
+                    setatt( mdl, "stdevs", self._head.stdevs[np:n2].copy() )
                 else :
                     setatt( mdl, "stdevs", None )
                 setatt( mdl, "_npchain", mdl.npbase )      # only extract one model
-- 
2.43.0


From 263913394238646f9bb2226015d2894f4cecfcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 049/144] fix: copies of a model shared the priors with the
 original

---
 BayesicFitting/source/BaseModel.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/BaseModel.py b/BayesicFitting/source/BaseModel.py
index a3c5818..e6594e6 100644
--- a/BayesicFitting/source/BaseModel.py
+++ b/BayesicFitting/source/BaseModel.py
@@ -123,10 +123,11 @@ class BaseModel( object ):
         else :
             setatt( self, "npbase", copy.npbase )
             setatt( self, "ndim", copy.ndim )
-            setatt( self, "priors", None if copy.priors is None else copy.priors.copy() )
-            setatt( self, "posIndex", copy.posIndex )
-            setatt( self, "nonZero", copy.nonZero )
-            setatt( self, "deltaP", copy.deltaP )
+            setatt( self, "priors", None if copy.priors is None else
+                            [None if p is None else p.copy() for p in copy.priors] )
+            setatt( self, "posIndex", copy.posIndex.copy() )
+            setatt( self, "nonZero", copy.nonZero.copy() )
+            setatt( self, "deltaP", copy.deltaP.copy() )
             setatt( self, "tiny", copy.tiny )
             setatt( self, "parNames", copy.parNames )
 
-- 
2.43.0


From 0eb1319255368aa39b84227ab2059b52e96a9abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 050/144] fix: a copy of a RepeatingModel shared the repeated
 model, and its priors, and forgot that it was not dynamic

---
 BayesicFitting/source/RepeatingModel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index 8464085..7f5a78e 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -165,7 +165,9 @@ class RepeatingModel( Model, Dynamic ):
         else :
             self.minComp = copy.minComp
             self.maxComp = copy.maxComp
-            growPrior = copy.growPrior.copy()
+            self.priors = model.priors
+            if copy.isDynamic() :
+                growPrior = copy.growPrior.copy()
             same = copy.same
 
         self.setSame( same )
@@ -183,7 +185,7 @@ class RepeatingModel( Model, Dynamic ):
 
     def copy( self ):
         """ Copy method.  """
-        return RepeatingModel( self.ncomp, self.model, isDynamic=self.isDyna, copy=self )
+        return RepeatingModel( self.ncomp, self.model.copy(), dynamic=self.isDyna, copy=self )
 
     def changeNComp( self, dn ) :
         setatt( self, "ncomp", self.ncomp + dn )
-- 
2.43.0


From 16445cf092e7722ffd18cf042cc18413ed2a3e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 051/144] fix: a copy of a DecisionTreeModel shared the
 growPrior and forgot that it was not dynamic

---
 BayesicFitting/source/DecisionTreeModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index dd27ac6..d2a8ed2 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -193,7 +193,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
             setatt( self, "nsplit", self.NSPLITPRIOR )
             self.setLimits( lowLimits=0.0, highLimits=1.0 )
         else :
-            setatt( self, "growPrior", copy.growPrior )
+            setatt( self, "growPrior", copy.growPrior.copy() )
             setatt( self, "ncomp", copy.ncomp )
             setatt( self, "nsplit", copy.nsplit )
             setatt( self, "itypes", copy.itypes )
@@ -216,7 +216,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
     def copy( self ):
         """ Copy method.  """
 
-        dtm = DecisionTreeModel( copy=self, modifiable=self.modifiable )
+        dtm = DecisionTreeModel( copy=self, modifiable=self.modifiable, dynamic=self.dynamic )
 
         if self.dimension is not None :
             setatt( dtm, "dimension", self.dimension )
-- 
2.43.0


From ca9c2f09baa7038abfd85eef85dfa7f558c976e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 052/144] fix: names of parameters of a RepeatingModel, and the
 IndexError on too many priors, raised another error

---
 BayesicFitting/source/RepeatingModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index 7f5a78e..d65045b 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -471,7 +471,7 @@ class RepeatingModel( Model, Dynamic ):
             self._next.setPrior( kpar - self.npbase, prior=prior, **kwargs )
         else :
             raise IndexError( "RepeatingModel cannot have more priors than %s" %
-                               self.model.shortname() )
+                               self.model.shortName() )
 
     def hasPriors( self, isBound=True ) :
         return self.model.hasPriors( isBound=isBound ) and super().hasPriors( isBound=isBound )
@@ -504,7 +504,7 @@ class RepeatingModel( Model, Dynamic ):
         """
         i,k = self.par2model( k )
         return ( self.model.getParameterName( i ) + 
-                    ( "_%d" % k if i not in self.same else "" ) )
+                    ( "_%d" % k if self.same is None or i not in self.same else "" ) )
 
     def baseParameterUnit( self, k ):
         """
-- 
2.43.0


From 4182ca93acefdfefea0160c021d4977ae9c46387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 053/144] fix: priors of the models appended to a CombiModel
 were taken from inside the CombiModel

---
 BayesicFitting/source/CombiModel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/CombiModel.py b/BayesicFitting/source/CombiModel.py
index 0118fd6..fd6724e 100644
--- a/BayesicFitting/source/CombiModel.py
+++ b/BayesicFitting/source/CombiModel.py
@@ -385,7 +385,8 @@ class CombiModel( BracketModel ):
         kpar : int
             index of the parameter to be selected.
         """
-#        print( kpar, self.parameters[kpar] )
+        if kpar >= self.npbase :
+            return super().getPrior( kpar )
         try :
             return self.model.getPrior( kpar )
         except IndexError :
-- 
2.43.0


From c1b3d0afeb43f10ca4ef38a020841d095235957c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:51 +0000
Subject: [PATCH 054/144] fix: a copy of an ExponentialPrior lost the low limit

---
 BayesicFitting/source/ExponentialPrior.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ExponentialPrior.py b/BayesicFitting/source/ExponentialPrior.py
index af0ed5e..8f90dc3 100644
--- a/BayesicFitting/source/ExponentialPrior.py
+++ b/BayesicFitting/source/ExponentialPrior.py
@@ -84,8 +84,11 @@ class ExponentialPrior( LaplacePrior ):
 
     def copy( self ):
         """ Copy the prior """
-        return ExponentialPrior( scale=self.scale, hilimit=self.limits[1], 
+        prior = ExponentialPrior( scale=self.scale, hilimit=self.limits[1],
             prior=self )
+        if self.hasLowLimit() :
+            prior.setLimits( self.limits )
+        return prior
 
     def shortName( self ) :
         return "ExponentialPrior"
-- 
2.43.0


From 42002e9cb6ad48a2f3b09263587af0bcb7ab00d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 055/144] fix: copying an error distribution set the scale to
 1.0, also in the original, and shared the hyperparameters

---
 BayesicFitting/source/ErrorDistribution.py            | 4 ++--
 BayesicFitting/source/ExponentialErrorDistribution.py | 2 --
 BayesicFitting/source/ScaledErrorDistribution.py      | 7 ++-----
 3 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/BayesicFitting/source/ErrorDistribution.py b/BayesicFitting/source/ErrorDistribution.py
index 0840573..3e0ca9c 100644
--- a/BayesicFitting/source/ErrorDistribution.py
+++ b/BayesicFitting/source/ErrorDistribution.py
@@ -99,9 +99,9 @@ class ErrorDistribution( object ):
             self.fixed = self.keepFixed( fixed )
             self.constrain = constrain
         else :                          ### TBC do we need copies here ????
-            self.hyperpar = copy.hyperpar
+            self.hyperpar = [hp.copy() for hp in copy.hyperpar]
             self.deltaP = copy.deltaP
-            self.fixed = self.keepFixed( copy.fixed )
+            self.fixed = copy.fixed
             self.constrain = copy.constrain
 
     def copy( self ):
diff --git a/BayesicFitting/source/ExponentialErrorDistribution.py b/BayesicFitting/source/ExponentialErrorDistribution.py
index 6626a1e..68a3df8 100644
--- a/BayesicFitting/source/ExponentialErrorDistribution.py
+++ b/BayesicFitting/source/ExponentialErrorDistribution.py
@@ -115,8 +115,6 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
         if copy is None :
             self.hyperpar = [NoiseScale( scale=scale, limits=slim ),
                              HyperParameter( hypar=power, limits=plim )]
-        else :
-            self.hyperpar = copy.hyperpar
 
     def copy( self ):
         """ Return copy of this.  """
diff --git a/BayesicFitting/source/ScaledErrorDistribution.py b/BayesicFitting/source/ScaledErrorDistribution.py
index cce4db6..61c1812 100644
--- a/BayesicFitting/source/ScaledErrorDistribution.py
+++ b/BayesicFitting/source/ScaledErrorDistribution.py
@@ -76,11 +76,8 @@ class ScaledErrorDistribution( ErrorDistribution ):
 
         if copy is None :
             self.hyperpar = NoiseScale( scale=scale, limits=limits )
-        else :
-            self.hyperpar = copy.hyperpar                   ## TBC copy ???
-
-        if limits is None :
-            self.fixed = self.keepFixed( {0: scale} )
+            if limits is None :
+                self.fixed = self.keepFixed( {0: scale} )
 
     def copy( self ):
         """ Return copy of this.  """
-- 
2.43.0


From 722a0069462c3ab6ea0dd361fe86f3d79b721579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:44 +0000
Subject: [PATCH 056/144] fix: a copy of a NoiseScale lost its prior, limits
 and stdev

---
 BayesicFitting/source/NoiseScale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/NoiseScale.py b/BayesicFitting/source/NoiseScale.py
index 1a4c4b4..0aa0494 100644
--- a/BayesicFitting/source/NoiseScale.py
+++ b/BayesicFitting/source/NoiseScale.py
@@ -92,7 +92,7 @@ class NoiseScale( HyperParameter ):
         if limits is not None and prior is None :
             prior = JeffreysPrior()
         super( NoiseScale, self ).__init__( hypar=scale, isFixed=isFixed,
-                        prior=prior, limits=limits )
+                        prior=prior, limits=limits, copy=copy )
         self.minimum = False
 
         if copy is not None :
-- 
2.43.0


From 38e135038cb78cf940c96844143e602568ee6eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 057/144] fix: setPriors of an error distribution always raised
 an AttributeError

---
 BayesicFitting/source/ErrorDistribution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ErrorDistribution.py b/BayesicFitting/source/ErrorDistribution.py
index 3e0ca9c..774f9be 100644
--- a/BayesicFitting/source/ErrorDistribution.py
+++ b/BayesicFitting/source/ErrorDistribution.py
@@ -289,8 +289,11 @@ class ErrorDistribution( object ):
         priors  : (list of) Prior
             prior distribution for the hyperparameters
         """
+        if not isinstance( priors, list ) :
+            priors = [priors]
         for spp,pr in zip( self.hyperpar, priors ) :
-            spp.setPrior( pr )
+            spp.prior = pr
+            spp.isFixed = False
 
     def setLimits( self, limits ) :
         """
-- 
2.43.0


From 4feb0cd287d82425e58f77f2a8742d9e151f312c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 058/144] fix: a hyperparameter constructed with limits, but no
 prior, stayed fixed

---
 BayesicFitting/source/HyperParameter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/HyperParameter.py b/BayesicFitting/source/HyperParameter.py
index 728d61b..7f0b821 100644
--- a/BayesicFitting/source/HyperParameter.py
+++ b/BayesicFitting/source/HyperParameter.py
@@ -88,6 +88,7 @@ class HyperParameter( object ):
             self.isFixed = False
         elif limits is not None :
             self.prior = JeffreysPrior( limits=limits ) 
+            self.isFixed = False
 
 
         if copy is not None :
-- 
2.43.0


From 1e3e25376fcb9b7186431297e5efe1e15341b1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 059/144] fix: a copy of a SalesmanProblem shared the
 parameters with the original and lost the table

---
 BayesicFitting/source/OrderProblem.py    | 2 +-
 BayesicFitting/source/SalesmanProblem.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/OrderProblem.py b/BayesicFitting/source/OrderProblem.py
index 5ed7b49..bf20d2e 100644
--- a/BayesicFitting/source/OrderProblem.py
+++ b/BayesicFitting/source/OrderProblem.py
@@ -80,7 +80,7 @@ class OrderProblem( Problem ):
         if copy is None :
             self.parameters = numpy.arange( self.npars, dtype=int )
         else :
-            self.parameters = copy.parameters
+            self.parameters = numpy.copy( copy.parameters )
 
 
     def copy( self ) :
diff --git a/BayesicFitting/source/SalesmanProblem.py b/BayesicFitting/source/SalesmanProblem.py
index f52c624..f167a10 100644
--- a/BayesicFitting/source/SalesmanProblem.py
+++ b/BayesicFitting/source/SalesmanProblem.py
@@ -93,6 +93,8 @@ class SalesmanProblem( OrderProblem ):
         if copy is not None :
             self.distance = copy.distance
             self.disname = copy.disname
+            if hasattr( copy, "table" ) :
+                self.table = copy.table
             self.scale = copy.scale
             self.oneway = copy.oneway
             return
-- 
2.43.0


From 62a756d3fa764b52cb28d91bee77d5c1754cd5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 060/144] fix: logZ and evidence of the SampleList were always
 0

---
 BayesicFitting/source/NestedSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index a8efa2b..296029f 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -470,7 +470,7 @@ class NestedSampler( object ):
         self.updateEvidence( self.ensemble )        # Update Evidence Z and Information H
 
         # Calculate weighted average and stdevs for the parameters;
-        self.samples.LogZ = self.logZ
+        self.samples.logZ = self.logZ
         self.samples.info = self.info
         self.samples.normalize( )
 
-- 
2.43.0


From 5ee460674b0ae07c18860f328ed422e81f660369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 061/144] fix: remaining walkers were not sorted on logL, so
 the last sample was not always the maximum likelihood

---
 BayesicFitting/source/NestedSampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 296029f..6d59cf8 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -467,6 +467,7 @@ class NestedSampler( object ):
 
 
         # End of Sampling: Update and store the remaining walkers
+        self.walkers.sort( key=self.walkerLogL )        # the last one has the maximum likelihood
         self.updateEvidence( self.ensemble )        # Update Evidence Z and Information H
 
         # Calculate weighted average and stdevs for the parameters;
-- 
2.43.0


From f27326d1c6c99fd896760b1e11f7527eb7e9d034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 062/144] fix: the information H was updated with the logL of
 another walker

---
 BayesicFitting/source/NestedSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 6d59cf8..6ffb999 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -770,7 +770,7 @@ class NestedSampler( object ):
             logZnew = numpy.logaddexp( self.logZ, logWeight )
 
             # update Information, H
-            self.info = ( math.exp( logWeight - logZnew ) * self.lowLhood +
+            self.info = ( math.exp( logWeight - logZnew ) * self.walkers[kw].logL +
                     math.exp( self.logZ - logZnew ) * ( self.info + self.logZ ) - logZnew )
 
             if math.isnan( self.info ) :
-- 
2.43.0


From fcf73e02d05f98f94adc06a5b766a3c881e4d1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 063/144] fix: stdevScale and stdevHypar(s) of a SampleList
 raised an error

---
 BayesicFitting/source/SampleList.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/SampleList.py b/BayesicFitting/source/SampleList.py
index 563b888..3923eb3 100644
--- a/BayesicFitting/source/SampleList.py
+++ b/BayesicFitting/source/SampleList.py
@@ -147,9 +147,9 @@ class SampleList( list ):
             return self.stdevs
         elif name == "hypars" :
             return self.getHypars()
-        elif name == "stdevHypar" :
+        elif name == "stdevHypar" or name == "stdevHypars" :
             self.getHypars()
-            return self.stdevHypar
+            return self.stdevHypars
         elif name == "nuisance" :
             return self.getNuisance()
         elif name == "stdevNuis" :
-- 
2.43.0


From b8d9b0e61a82ccf791d560a096c698edde2dd9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 064/144] fix: monteCarloError returned the errors at earlier
 inputs or raised an AttributeError

---
 BayesicFitting/source/SampleList.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/BayesicFitting/source/SampleList.py b/BayesicFitting/source/SampleList.py
index 3923eb3..5f673d5 100644
--- a/BayesicFitting/source/SampleList.py
+++ b/BayesicFitting/source/SampleList.py
@@ -558,7 +558,6 @@ class SampleList( list ):
             standard deviations at each input point
 
         """
-        if Tools.length( xdata ) != len( self.result ):
-            self.average( xdata )
+        self.average( xdata )
         return self.error
 
-- 
2.43.0


From a0a64f372ae584df3e2d8a249f9442cc5fc8053f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 065/144] fix: hypars of a Walker contained the nuisance
 parameters too

---
 BayesicFitting/source/Walker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Walker.py b/BayesicFitting/source/Walker.py
index 9a597e9..9e123bb 100644
--- a/BayesicFitting/source/Walker.py
+++ b/BayesicFitting/source/Walker.py
@@ -148,7 +148,7 @@ class Walker( object ):
             np = self.problem.model.npars
             return self.allpars[:np]
         elif name == "hypars" :
-            np = self.problem.model.npars
+            np = self.problem.npars
             if len( self.allpars ) > np :
                 return self.allpars[np:]
             else :
-- 
2.43.0


From e86bfc93bcc7696d6417d4606bbc275766d944bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 066/144] fix: evolution of the parameters of dynamic models
 raised an error in stead of being zero-padded

---
 BayesicFitting/source/SampleList.py | 17 ++++++-----------
 BayesicFitting/source/Tools.py      | 12 ++++++++++++
 BayesicFitting/source/WalkerList.py |  8 +++-----
 3 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/BayesicFitting/source/SampleList.py b/BayesicFitting/source/SampleList.py
index 5f673d5..19bf522 100644
--- a/BayesicFitting/source/SampleList.py
+++ b/BayesicFitting/source/SampleList.py
@@ -411,13 +411,11 @@ class SampleList( list ):
             the parameter to be selected. Default: all
 
         """
-        pe = []
-        for sample in self :
-            pe += [sample.parameters]
+        pe = Tools.zeroPad( [sample.parameters for sample in self] )
         if kpar is None :
-            return numpy.asarray( pe )
+            return pe
         else :
-            return numpy.asarray( pe )[:,kpar]
+            return pe[:,kpar]
 
     def getParAndWgtEvolution( self ):
         """
@@ -428,12 +426,9 @@ class SampleList( list ):
         to get the actual number.
 
         """
-        pe = []
-        we = []
-        for sample in self :
-            pe += [sample.parameters]
-            we += [sample.logW]
-        return ( numpy.asarray( pe ), numpy.exp( numpy.asarray( we ) ) )
+        pe = Tools.zeroPad( [sample.parameters for sample in self] )
+        we = [sample.logW for sample in self]
+        return ( pe, numpy.exp( numpy.asarray( we ) ) )
 
 
     def getNumberOfParametersEvolution( self ):
diff --git a/BayesicFitting/source/Tools.py b/BayesicFitting/source/Tools.py
index 3511acd..485130d 100644
--- a/BayesicFitting/source/Tools.py
+++ b/BayesicFitting/source/Tools.py
@@ -499,6 +499,18 @@ def track( statement ) :
     r = tracer.results()
     r.write_results(show_missing=True, coverdir=".")
 
+def zeroPad( rows ) :
+    """
+    Return a 2-d array of the rows, where shorter rows are padded with zeros.
+
+    Parameters
+    ----------
+    rows : list of array_like
+        to be put into one array
+    """
+    mx = max( [len( r ) for r in rows], default=0 )
+    return numpy.asarray( [numpy.pad( r, ( 0, mx - len( r ) ) ) for r in rows] )
+
 def average( xx, weights=None, circular=None ) :
     """
     Return (weighted) average and standard deviation of input array.
diff --git a/BayesicFitting/source/WalkerList.py b/BayesicFitting/source/WalkerList.py
index 75e75b2..d182546 100644
--- a/BayesicFitting/source/WalkerList.py
+++ b/BayesicFitting/source/WalkerList.py
@@ -267,13 +267,11 @@ class WalkerList( list ):
             the parameter to be selected. Default: all
 
         """
-        pe = []
-        for walker in self :
-            pe += [walker.parameters]
+        pe = Tools.zeroPad( [walker.parameters for walker in self] )
         if kpar is None :
-            return numpy.asarray( pe )
+            return pe
         else :
-            return numpy.asarray( pe )[:,kpar]
+            return pe[:,kpar]
 
     def getScaleEvolution( self ):
         """ Return the evolution of the scale.  """
-- 
2.43.0


From 482a2f2ffb601ebdd669c8b9a2e986f7e78ad8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 067/144] fix: MonteCarlo reseeded the global random number
 generator and could not be printed

---
 BayesicFitting/source/MonteCarlo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/MonteCarlo.py b/BayesicFitting/source/MonteCarlo.py
index db66888..2c19fa0 100644
--- a/BayesicFitting/source/MonteCarlo.py
+++ b/BayesicFitting/source/MonteCarlo.py
@@ -97,8 +97,8 @@ class MonteCarlo( object ):
         self.model = model
         self.index = index
         self.mcycles = mcycles
-        self._random = numpy.random
-        self._random.seed( seed )
+        self.seed = seed
+        self._random = numpy.random.RandomState( seed )
         self.decompose( covariance )
 
     def decompose( self, covariance ):
@@ -162,7 +162,7 @@ class MonteCarlo( object ):
     #  *************************************************************************
     def __str__( self ):
         """ Return name of the class.  """
-        return "MonteCarlo with seed %d and %d cycles" % (self._random.seed, self.mcycles)
+        return "MonteCarlo with seed %d and %d cycles" % (self.seed, self.mcycles)
 
 
 
-- 
2.43.0


From 05943fe92fb546e5e5bc043cada411e7db84869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 068/144] fix: StartOrderEngine used the global random number
 generator, so runs were not reproducible

---
 BayesicFitting/source/StartOrderEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/StartOrderEngine.py b/BayesicFitting/source/StartOrderEngine.py
index 467ce5f..fb43246 100644
--- a/BayesicFitting/source/StartOrderEngine.py
+++ b/BayesicFitting/source/StartOrderEngine.py
@@ -90,7 +90,7 @@ class StartOrderEngine( OrderEngine ):
 
         problem = walker.problem
 #        print( walker.allpars )
-        par = numpy.random.permutation( walker.allpars )
+        par = self.rng.permutation( walker.allpars )
 #        print( par )
 
         logL = self.errdis.logLikelihood( problem, par )
-- 
2.43.0


From 499d0f5b09e53fc0a13de053eceaf1d32ce1791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 069/144] fix: Model.testPartial reseeded the global random
 number generator

---
 BayesicFitting/source/Model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index a639b2f..47f1b34 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1519,7 +1519,7 @@ class Model( FixedModel ):
         sz = xdata.shape
         res = self.result( xdata, params )
 
-        random.seed( 13010804 )
+        rng = random.Random( 13010804 )
 
         try :
             snum = self.strictNumericDerivative( xdata, params )
@@ -1553,7 +1553,7 @@ class Model( FixedModel ):
         kerr = 0
         lrang = range( sz[0] )
         if sz[0] > 10 :
-            lrang = numpy.sort( random.sample( lrang, 10 ) )
+            lrang = numpy.sort( rng.sample( lrang, 10 ) )
 
 
         spaces = "          "
@@ -1607,7 +1607,7 @@ class Model( FixedModel ):
             kerr += lq
 
             for i in range( self.npars ) :
-                if ( lq >= 1 and i in q[-1] ) or random.random() < 5.0 / self.npars :
+                if ( lq >= 1 and i in q[-1] ) or rng.random() < 5.0 / self.npars :
                     ks = 4 if i < 10 else 3 if i < 100 else 2
                         
                     if ndout == 1 : 
-- 
2.43.0


From 63b982ed5c4b458da7bd87b0e413a26ebcf6e0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 070/144] fix: NestedSampler with keep raised an IndexError
 when a hyperparameter was not fitted

---
 BayesicFitting/source/NestedSampler.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 6ffb999..2b565ca 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -540,13 +540,11 @@ class NestedSampler( object ):
         if keep is not None :
             fitl = []
             kkeys = list( keep.keys() )
-            for k in range( np + nh ) :
-                if k in kkeys :
-                    allpars[k] = keep[k]                    # save keep.value in allpars
-                elif fitlist[k] in kkeys :
-                    allpars[k] = keep[fitlist[k]]           # save keep.value in allpars
-                else :
-                    fitl += [fitlist[k]]                    # list of pars to be fitted
+            for k in kkeys :
+                allpars[k] = keep[k]                        # save keep.value in allpars
+            for k in fitlist :
+                if not ( k in kkeys or ( k < 0 and np + nh + k in kkeys ) ) :
+                    fitl += [k]                             # list of pars to be fitted
             fitlist = fitl
 
         return ( fitlist, allpars )
-- 
2.43.0


From bc48e9b86ca578fb1ced6f07736b5e7e996a68e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 071/144] fix: the first walker stored in an empty list of
 phantoms got another identification

---
 BayesicFitting/source/WalkerList.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/WalkerList.py b/BayesicFitting/source/WalkerList.py
index d182546..4cc096a 100644
--- a/BayesicFitting/source/WalkerList.py
+++ b/BayesicFitting/source/WalkerList.py
@@ -179,7 +179,8 @@ class WalkerList( list ):
         """
         klow = self.firstIndex( walker.logL )
         if klow is None :
-            self.setWalker( walker, 0 )
+            self.append( walker )
+            self._count += 1
             return self
 
         cnt = self._count
-- 
2.43.0


From 9b162d6c163cd9735626c53976f1caf0500207ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 072/144] fix: GalileanEngine tried NaN parameters after an
 infinite or NaN log likelihood

---
 BayesicFitting/source/GalileanEngine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BayesicFitting/source/GalileanEngine.py b/BayesicFitting/source/GalileanEngine.py
index 137872d..01811f3 100644
--- a/BayesicFitting/source/GalileanEngine.py
+++ b/BayesicFitting/source/GalileanEngine.py
@@ -256,6 +256,9 @@ class GalileanEngine( Engine ):
         xvalue : float
             largest of the two inside [0,1]
         """ 
+        if not ( math.isfinite( Lm ) and math.isfinite( L1 ) ) :
+            return 0.5
+
         c = L0
         b = 4 * Lm - L1 - 3 * L0
         a = 2 * L0 - 4 * Lm  + 2 * L1
-- 
2.43.0


From 093466fd7e4e3108a3b95d84c81e6fbdd4bab4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 073/144] fix: RandomEngine used the range of another parameter
 when some parameters are not fitted

---
 BayesicFitting/source/RandomEngine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/RandomEngine.py b/BayesicFitting/source/RandomEngine.py
index 9d3fa11..350e09c 100644
--- a/BayesicFitting/source/RandomEngine.py
+++ b/BayesicFitting/source/RandomEngine.py
@@ -106,8 +106,9 @@ class RandomEngine( Engine ):
         param = walker.allpars
         
         ## Make a unit box to find a new walker in
-        nap = len( param )
         um, ux = self.getUnitMinmax( problem, lowLhood )
+        um = um[fi]
+        ux = ux[fi]
 
         mlen = len( self.walkers )
         dr = 10 * ( ux - um ) / mlen
@@ -121,7 +122,7 @@ class RandomEngine( Engine ):
         t = 0
         for tt in range( self.nstep ) :
             ptry = param.copy()
-            uval = self.rng.uniform( um, ux, nap )
+            uval = self.rng.uniform( um, ux, nf )
             ptry[fi] = self.unit2Domain( problem, uval, kpar=fi )
 
             Ltry = self.errdis.logLikelihood( problem, ptry )
-- 
2.43.0


From 3e363b2f6c7fde50e20e279bf240d88ba140f063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 074/144] fix: ShuffleEngine.execute did not accept the
 arguments of the Explorer

---
 BayesicFitting/source/ShuffleEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ShuffleEngine.py b/BayesicFitting/source/ShuffleEngine.py
index e5ef5cf..2555009 100644
--- a/BayesicFitting/source/ShuffleEngine.py
+++ b/BayesicFitting/source/ShuffleEngine.py
@@ -75,7 +75,7 @@ class ShuffleEngine( OrderEngine ):
         return str( "ShuffleEngine" )
 
     #  *********EXECUTE***************************************************
-    def execute( self, kw, lowLhood ):
+    def executeOnce( self, kw, lowLhood ):
         """
         Execute the engine by diffusing the parameters.
 
-- 
2.43.0


From 3782131384695f23b9064d7418bd99edbcb38650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 075/144] fix: ReverseEngine reported a move when all trials
 were rejected

---
 BayesicFitting/source/ReverseEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ReverseEngine.py b/BayesicFitting/source/ReverseEngine.py
index cc009ef..00a7609 100644
--- a/BayesicFitting/source/ReverseEngine.py
+++ b/BayesicFitting/source/ReverseEngine.py
@@ -110,6 +110,6 @@ class ReverseEngine( OrderEngine ):
 
         self.reportReject()
 
-        return t                        # nr of succesfull steps
+        return 0                        # nr of succesfull steps
 
 
-- 
2.43.0


From bb1cc39d8af5e95cb521f8d5b7c0d812452ee514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:44 +0000
Subject: [PATCH 076/144] fix: the Explorer's sanity check failed on order
 problems and on problems with errors in X and Y

---
 BayesicFitting/source/Explorer.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/Explorer.py b/BayesicFitting/source/Explorer.py
index ab2bf6f..17c4f8e 100644
--- a/BayesicFitting/source/Explorer.py
+++ b/BayesicFitting/source/Explorer.py
@@ -2,6 +2,7 @@ import numpy as numpy
 from threading import Thread
 
 from .Engine import Engine
+from .ErrorsInXandYProblem import ErrorsInXandYProblem
 from .Formatter import formatter as fmt
 from . import Tools
 
@@ -254,15 +255,21 @@ class Explorer( object ):
         ValueError at inconsistency.
 
         """
-        walker.check( nhyp=self.errdis.nphypar )
-
-        wlogL = self.errdis.logLikelihood( walker.problem, walker.allpars )
-        if walker.problem.model.npars < len( walker.allpars ) - self.errdis.nphypar :
+        problem = walker.problem
+        np = problem.npars                  ## nr of parameters of an order problem: no model
+        if problem.model is not None :
+            np = problem.model.npars
+            nuisance = len( problem.xdata ) if isinstance( problem, ErrorsInXandYProblem ) else 0
+            walker.check( nhyp=self.errdis.nphypar, nuisance=nuisance )
+            np += nuisance
+
+        wlogL = self.errdis.logLikelihood( problem, walker.allpars )
+        if np < len( walker.allpars ) - self.errdis.nphypar :
             Tools.printclass( walker )
             print( "Iteration %4d %4d %10.3f  %10.3f" % ( self.iteration, walker.id, walker.logL, wlogL ) )
             print( fmt( walker.allpars, max=None ) )
             raise ValueError( "Inconsistency in length of modelparams (%d) and allpars (%d - %d)" %
-                                ( walker.problem.model.npars, len( walker.allpars ), self.errdis.nphypar ) )
+                                ( np, len( walker.allpars ), self.errdis.nphypar ) )
 
         if wlogL != walker.logL :
             Tools.printclass( walker )
@@ -271,12 +278,15 @@ class Explorer( object ):
             raise ValueError( "Inconsistency between stored logL %f and calculated logL %f" %
                                 ( walker.logL, wlogL ) )
 
+        if problem.model is None :
+            return
+
         for ki in walker.fitIndex :
 #            if walker.fitIndex[ki] >= 0 :
             if ki < 0 :
                 self.errdis.hyperpar[ki].prior.checkLimit( walker.allpars[ki] )
-            elif ki < walker.problem.model.npars :
-                walker.problem.model.getPrior( ki ).checkLimit( walker.allpars[ki] )
+            elif ki < problem.model.npars :
+                problem.model.getPrior( ki ).checkLimit( walker.allpars[ki] )
 
 
 class ExplorerThread( Thread ):
-- 
2.43.0


From 044d6e6ef90c32603dcd78f5714f9feac3ed3676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:44 +0000
Subject: [PATCH 077/144] fix: StartEngine lost the fixed hyperparameters and
 the kept parameters of a dynamic model

---
 BayesicFitting/source/StartEngine.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/BayesicFitting/source/StartEngine.py b/BayesicFitting/source/StartEngine.py
index d059b18..05f855d 100644
--- a/BayesicFitting/source/StartEngine.py
+++ b/BayesicFitting/source/StartEngine.py
@@ -92,9 +92,6 @@ class StartEngine( Engine ):
         fitIndex = walker.fitIndex
         allp = walker.allpars.copy()
 
-        npar = len( allp )
-        onp = problem.npars
-
         maxtrials = self.maxtrials
         if hasattr( self.errdis, "constrain" ) and callable( self.errdis.constrain ) :
             maxtrials *= 100
@@ -102,6 +99,7 @@ class StartEngine( Engine ):
         ktry = 0
         while True :
 
+            model = problem.model
             if model.isDynamic() :
                 np0 = model.npars
                 off = 0
@@ -120,11 +118,10 @@ class StartEngine( Engine ):
                     np1 = model.npars
                     dnp = np1 - np0
                     fitIndex = model.alterFitindex( fitIndex, npbase, dnp, off )
+                    allp = model.alterParameters( allp, npbase, dnp, off, value=0.0 )
                     npbase = model.npbase
                     np0 = np1
 
-                allp = numpy.zeros( npar + np0 - onp, dtype=float )
-
             uval = self.rng.rand( len( fitIndex ) )
 
 #            print( "SE FI  ", fitIndex )
-- 
2.43.0


From d48e907d285cc216e4791fbb147431dd135ec3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 078/144] fix: SplinesDynamicModel.grow moved a parameter below
 its low limit

---
 BayesicFitting/source/SplinesDynamicModel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/SplinesDynamicModel.py b/BayesicFitting/source/SplinesDynamicModel.py
index 8574247..1390080 100644
--- a/BayesicFitting/source/SplinesDynamicModel.py
+++ b/BayesicFitting/source/SplinesDynamicModel.py
@@ -247,7 +247,9 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
 
 #        print( "grow    ", nrknots, location, offset, k, kl, newkn )
 
-        mdlpar[kl-1] *= 0.7
+        value = mdlpar[kl-1] * 0.7
+        if self.priors is None or not self.basePrior( location-1 ).isOutOfLimits( value ) :
+            mdlpar[kl-1] = value
         value = mdlpar[kl-1]
         mdlpar = self.alterParameters( mdlpar, location, dnp, offset, value=value )
 
-- 
2.43.0


From 4fa457a96e93c25a8e02da2768e0ae42b0515bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:41 +0000
Subject: [PATCH 079/144] fix: StructureEngine was not used, or failed, when
 the modifiable model was not the first one

---
 BayesicFitting/source/Model.py           | 11 +++++++++++
 BayesicFitting/source/StructureEngine.py |  6 +++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 47f1b34..1095c79 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1023,6 +1023,17 @@ class Model( FixedModel ):
 
         return False
 
+    def isModifiable( self ) :
+        """
+        Return whether the model can change its structure.
+        """
+        if super( Model, self ).isModifiable() :
+            return True
+        elif self._next is not None :
+            return self._next.isModifiable()
+
+        return False
+
     #  *****PRIOR***************************************************************
     def hasPriors( self, isBound=True ) :
         """
diff --git a/BayesicFitting/source/StructureEngine.py b/BayesicFitting/source/StructureEngine.py
index 787b0e1..dbdb61f 100644
--- a/BayesicFitting/source/StructureEngine.py
+++ b/BayesicFitting/source/StructureEngine.py
@@ -100,7 +100,11 @@ class StructureEngine( Engine ):
         self.reportCall()
 
         t = 0
-        perm = self.rng.permutation( self.walkers[kw].problem.model.ncomp - 2 )     ## TBC
+        model = self.walkers[kw].problem.model
+        while model is not None and not isinstance( model, Modifiable ) :
+            model = model._next
+
+        perm = self.rng.permutation( model.ncomp - 2 )     ## TBC
         for p in perm :
             update = len( self.walkers ) if append else kw
             dt = self.executeOnce( kw, lowLhood, update, location=p+1 )
-- 
2.43.0


From f963bbdc2a9aec8a3ea3589680fe7224c8bdb10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 080/144] fix: plotSampleList drew from the global random
 number generator

---
 BayesicFitting/source/Plotter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Plotter.py b/BayesicFitting/source/Plotter.py
index e62d357..1015498 100644
--- a/BayesicFitting/source/Plotter.py
+++ b/BayesicFitting/source/Plotter.py
@@ -226,6 +226,7 @@ def plotSampleList( sl, xdata, ydata, errors=None, npt=10000,
     xrng = xhi - xlo
 
     # plot npt samples from posterior
+    rng = numpy.random.RandomState( 80409 )
     ntot = 0
     swgt = 0.0
 
@@ -235,7 +236,7 @@ def plotSampleList( sl, xdata, ydata, errors=None, npt=10000,
         if ns == 0 : continue
     
         #print( s.weight, swgt, ns )
-        xs = numpy.random.rand( ns ) * xrng + xlo
+        xs = rng.rand( ns ) * xrng + xlo
 
         ax0.plot( xs, s.model.result( xs, s.parameters ), 'r.', markersize=2 )
         swgt -= ns
-- 
2.43.0


From 8fe6bd0f0129f0649194df05d2a17cf2331eea7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 081/144] fix: PhantomSampler failed with less than 100 / step
 walkers

---
 BayesicFitting/source/PhantomSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/PhantomSampler.py b/BayesicFitting/source/PhantomSampler.py
index 58c6858..258629e 100644
--- a/BayesicFitting/source/PhantomSampler.py
+++ b/BayesicFitting/source/PhantomSampler.py
@@ -225,7 +225,7 @@ class PhantomSampler( NestedSampler ):
 
     def __getattr__( self, name ) :
         if name == "worst" :
-            return int( ( len( self.walkers ) * self.step ) // 100 )
+            return max( 1, int( ( len( self.walkers ) * self.step ) // 100 ) )
         else :
             return super().__getattr__( name )
 
-- 
2.43.0


From b34e62219788637547a94416ab739a7c74a99ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:55 +0000
Subject: [PATCH 082/144] fix: AnnealingAmoeba.hasLowLimits tested the high
 limits

---
 BayesicFitting/source/AnnealingAmoeba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index 29d9ee9..e7a393e 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -278,7 +278,7 @@ class AnnealingAmoeba( object ):
         """
         Return True if it has low limits > -inf.
         """
-        return self.lolimits is not None and self.hilimits[k] > -math.inf
+        return self.lolimits is not None and self.lolimits[k] > -math.inf
 
     def hasHighLimits( self, k ) :
         """
-- 
2.43.0


From 5e61948e23626be572a4cb2933fe9cba089d6199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:55 +0000
Subject: [PATCH 083/144] fix: AnnealingAmoeba changed the initial values and
 step sizes of its caller

---
 BayesicFitting/source/AnnealingAmoeba.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index e7a393e..bc241a3 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -236,6 +236,9 @@ class AnnealingAmoeba( object ):
         """
         nfit = len( xini )
 
+        xini = numpy.array( xini, dtype=float )     ## copies: leave the arguments as they are
+        step = numpy.array( step, dtype=float )
+
         i = 0
         for ir in xini :
             if self.hasLowLimits( i ) and ir <= self.lolimits[i] :
-- 
2.43.0


From 87735c6b2c947e6e6026ddcd368d364041e56f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:55 +0000
Subject: [PATCH 084/144] fix: AnnealingAmoeba.checkSimplex compared the
 coordinates of one corner instead of the corners in one coordinate

---
 BayesicFitting/source/AnnealingAmoeba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index bc241a3..152c5ea 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -329,10 +329,10 @@ class AnnealingAmoeba( object ):
         for i in range( dim[1] ) :
             same = True
             pre = simplex[0,i]
-            same = all( sim == pre for sim in simplex[i,:] )
+            same = all( sim == pre for sim in simplex[:,i] )
 
             if same:
-                print( simplex[i,:] )
+                print( simplex[:,i] )
                 raise ValueError( "Simplex is degenerate at index %d"%i )
 
     def setValues( self ):
-- 
2.43.0


From 4ddea0cd9b4ea0f041cff76d943da6a295312d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:55 +0000
Subject: [PATCH 085/144] fix: AnnealingAmoeba lost a corner of the simplex
 when it put the best one in front

---
 BayesicFitting/source/AnnealingAmoeba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index 152c5ea..ac5cf67 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -454,7 +454,7 @@ class AnnealingAmoeba( object ):
                     self.values[0] = self.values[ilo]
                     self.values[ilo] = swap
 
-                    swap = self.simplex[0,:]
+                    swap = self.simplex[0,:].copy()
                     self.simplex[0,:] = self.simplex[ilo,:]
                     self.simplex[ilo,:] = swap
 
-- 
2.43.0


From 7331ec119f0e6e3da773dee3c2265bb0be88635b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:55 +0000
Subject: [PATCH 086/144] fix: AnnealingAmoeba left the limits when
 (de)inflating the simplex and overwrote its best point

---
 BayesicFitting/source/AnnealingAmoeba.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index ac5cf67..726bb83 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -344,7 +344,8 @@ class AnnealingAmoeba( object ):
             corner = self.simplex[i,:]
             cost = self.func( corner )
             if not numpy.isfinite( cost ) :
-                corner += 0.01 * numpy.sum( self.simplex, 0 )
+                trypar = corner + 0.01 * numpy.sum( self.simplex, 0 )
+                corner[:] = self.stayInLimits( corner, trypar )
                 cost = self.func( corner )
 
             self.values[i] = cost
@@ -555,7 +556,7 @@ class AnnealingAmoeba( object ):
         (ndim,nfit) = self.simplex.shape
         milo = [k for k in range( ilo )] + [k for k in range( ilo+1, ndim )]
         for i in milo :
-            inpar = self.simplex[i,:]
+            inpar = self.simplex[i,:].copy()
             self.simplex[i,:] = factor * inpar + emf * self.simplex[ilo,:]
 
             self.simplex[i,:] = self.stayInLimits( inpar, self.simplex[i,:] )
@@ -568,7 +569,7 @@ class AnnealingAmoeba( object ):
                 ylo = self.values[i]
                 if self.values[i] < self.fopt:
                     self.fopt = ylo
-                    self.xopt = p
+                    self.xopt = p.copy()
 
         self.sum = numpy.sum( self.simplex, axis=0 )
 
-- 
2.43.0


From 7ffd1027064921438badcaedbfd0fc4dfb58d669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 087/144] fix: ScipyFitter failed when its method is None, the
 default

---
 BayesicFitting/source/ScipyFitter.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index 967f174..56951bd 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -165,7 +165,8 @@ class ScipyFitter( MaxLikelihoodFitter ):
 
         self.userGradient = gradient
         self.userHessp = hessp
-        self.method = str.upper( method )
+        self.method = None if method is None else str.upper( method )
+        self.automatic = method is None         # select method automatically
         self.norm = numpy.inf
         self.debug = False
         self.ngrad = 0
@@ -234,7 +235,7 @@ class ScipyFitter( MaxLikelihoodFitter ):
             except :
                 limits = ( self.model.lowLimits, self.model.highLimits )
 
-        if self.method is None:
+        if self.automatic :
             # Select automatically
             if constraints:
                 self.method = 'SLSQP'
@@ -245,8 +246,6 @@ class ScipyFitter( MaxLikelihoodFitter ):
 
         (func,gradient,hess) = self.makeFuncs( data, weights=weights, index=fitIndex )
 
-        print( self.method )
-
         # - hessp
         useHessian = self.method in ('NEWTON-CG', 'DOGLEG', 'TRUST-NCG')
         if ( not useHessian and hasattr( self, "userHessp" ) and self.userHessp is not None ) :
@@ -337,7 +336,8 @@ class ScipyFitter( MaxLikelihoodFitter ):
         else:
             raise ValueError('Unknown solver %s' % self.method)
 
-        print( res )
+        if verbose > 0 :
+            print( res )
 
         parameters = self.insertParameters( res["x"], index=fitIndex )
         self.model.parameters = parameters
-- 
2.43.0


From 08d626d342c36094e613592865ddfac6c39ee2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 088/144] fix: ScipyFitter changed the print options of numpy
 for everybody

---
 BayesicFitting/source/ScipyFitter.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index 56951bd..88415fe 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -171,8 +171,6 @@ class ScipyFitter( MaxLikelihoodFitter ):
         self.debug = False
         self.ngrad = 0
 
-        numpy.set_printoptions(formatter={'float': '{: 0.3f}'.format})
-
 
     #  *************************************************************************
     def fit( self, data, weights=None, par0=None, keep=None, limits=None,
-- 
2.43.0


From b73b9563d281959ca11d9c97b608084654686082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 089/144] fix: ScipyFitter.fit ignored par0

---
 BayesicFitting/source/ScipyFitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index 88415fe..dad1b1b 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -224,7 +224,9 @@ class ScipyFitter( MaxLikelihoodFitter ):
         fitIndex, data, weights = self.fitprolog( data, weights=weights, 
                         accuracy=accuracy, keep=keep )
 
-        inipar = self.model.parameters[fitIndex]
+        inipar = self.model.parameters if par0 is None else numpy.asarray( par0, dtype=float )
+        if len( inipar ) > len( fitIndex ) :
+            inipar = inipar[fitIndex]
 
         # Check for limits in the prior
         if limits is not None and self.model.priors :
-- 
2.43.0


From 02c862dc20bd9b6aa8cb03ebb1ae2b3707056351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:34 +0000
Subject: [PATCH 090/144] fix: ScipyFitter.fit did not pass the limits of the
 user to the minimizer

---
 BayesicFitting/source/ScipyFitter.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index dad1b1b..11bf410 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -228,12 +228,13 @@ class ScipyFitter( MaxLikelihoodFitter ):
         if len( inipar ) > len( fitIndex ) :
             inipar = inipar[fitIndex]
 
-        # Check for limits in the prior
-        if limits is not None and self.model.priors :
-            try :
-                limits = ( self.model.lowLimits[fitIndex], self.model.highLimits[fitIndex] )
-            except :
-                limits = ( self.model.lowLimits, self.model.highLimits )
+        # Make limits into a list of (low,high) for each of the parameters to be fitted
+        if limits is not None :
+            npar = self.model.npchain
+            lohi = [numpy.asarray( lim, dtype=float ) for lim in limits]
+            lohi = [lim[fitIndex] if lim.ndim > 0 and len( lim ) == npar else
+                    numpy.broadcast_to( lim, len( fitIndex ) ) for lim in lohi]
+            limits = [*zip( *lohi )]
 
         if self.automatic :
             # Select automatically
-- 
2.43.0


From f089449911b5d144e5e8aba88357f352997e4151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:34 +0000
Subject: [PATCH 091/144] fix: ScipyFitter.fit ignored maxiter and tolerance

---
 BayesicFitting/source/ScipyFitter.py | 51 ++++++++++++++++------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index 11bf410..541e0be 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -221,6 +221,9 @@ class ScipyFitter( MaxLikelihoodFitter ):
             ConvergenceError if it stops when the tolerance has not yet been reached.
 
         """
+        if maxiter is None : maxiter = self.maxIter
+        if tolerance is None : tolerance = self.tolerance
+
         fitIndex, data, weights = self.fitprolog( data, weights=weights, 
                         accuracy=accuracy, keep=keep )
 
@@ -281,57 +284,63 @@ class ScipyFitter( MaxLikelihoodFitter ):
             options = {}
 
         if self.method == 'NELDER-MEAD':
-            options.setdefault( 'xatol', self.tolerance )
-            options.setdefault( 'fatol', self.tolerance )
-            options.setdefault( 'maxiter', self.maxIter )
+            options.setdefault( 'xatol', tolerance )
+            options.setdefault( 'fatol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, method="Nelder-Mead",
                     callback=callback, options=options )
         elif self.method == 'POWELL':
-            options.setdefault( 'ftol', self.tolerance )
-            options.setdefault( 'xtol', self.tolerance )
-            options.setdefault( 'maxiter', self.maxIter )
+            options.setdefault( 'ftol', tolerance )
+            options.setdefault( 'xtol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, method="Powell",
                     callback=callback, options=options )
         elif self.method == 'CG':
-            options.setdefault( 'gtol', self.tolerance )
-            options.setdefault( 'maxiter', self.maxIter )
+            options.setdefault( 'gtol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, jac=gradient, method="CG",
                     callback=callback, options=options )
         elif self.method == 'BFGS':
-            options.setdefault( 'gtol', self.tolerance )
-            options.setdefault( 'maxiter', self.maxIter )
+            options.setdefault( 'gtol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, jac=gradient, method="BFGS",
                     callback=callback, options=options )
         elif self.method == 'NEWTON-CG':
-            options.setdefault( 'xtol', self.tolerance )
-            options.setdefault( 'maxiter', self.maxIter )
+            options.setdefault( 'xtol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, jac=gradient, method="Newton-CG",
                     hess=hess, hessp=self.userHessp, callback=callback, options=options )
         elif self.method == 'L-BFGS-B':
-            options.setdefault( 'gtol', self.tolerance )
-            options.setdefault( 'ftol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
+            options.setdefault( 'ftol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, jac=gradient, method="L-BFGS-B",
                     bounds=limits, callback=callback, options=options )
         elif self.method == 'TNC':
-            options.setdefault( 'gtol', self.tolerance )
-            options.setdefault( 'ftol', self.tolerance )
-            options.setdefault( 'xtol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
+            options.setdefault( 'ftol', tolerance )
+            options.setdefault( 'xtol', tolerance )
+            options.setdefault( 'maxfun', maxiter )
             res = minimize( func, inipar, jac=gradient, method="TNC",
                     bounds=limits, callback=callback, options=options )
         elif self.method == 'COBYLA':
-            options.setdefault( 'tol', self.tolerance )
+            options.setdefault( 'tol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, method="COBYLA",
                     constraints=constraints, callback=callback, options=options )
         elif self.method == 'SLSQP':
-            options.setdefault( 'ftol', self.tolerance )
+            options.setdefault( 'ftol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, jac=gradient, method="SLSQP",
                     bounds=limits, constraints=constraints, callback=callback, options=options )
         elif self.method == 'DOGLEG':
-            options.setdefault( 'gtol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, jac=gradient, method="dogleg",
                     hess=hess, callback=callback, options=options )
         elif self.method == 'TRUST-NCG':
-            options.setdefault( 'gtol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, jac=gradient, method="trust-ncg",
                     hess=hess, hessp=self.userHessp, callback=callback, options=options )
         else:
-- 
2.43.0


From 20bae11bd686dcc997c9b87546819d8b846c3146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:34 +0000
Subject: [PATCH 092/144] fix: ConjugateGradientFitter ignored its gradient
 argument

---
 BayesicFitting/source/ScipyFitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index 541e0be..d620805 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -495,7 +495,7 @@ class ConjugateGradientFitter( ScipyFitter ) :
 
         """
         super( ConjugateGradientFitter, self ).__init__( xdata, model, method='CG',
-                **kwargs )
+                gradient=gradient, **kwargs )
 
 class BfgsFitter( ScipyFitter ) :
     """
-- 
2.43.0


From 4fec31ccc17ab8e0ea70e3f2d4c35dd1c87cdca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:34 +0000
Subject: [PATCH 093/144] fix: the Hessian of chisq was half of the second
 derivative and failed with fixed parameters

---
 BayesicFitting/source/MaxLikelihoodFitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/MaxLikelihoodFitter.py b/BayesicFitting/source/MaxLikelihoodFitter.py
index ce577b0..cbfc9ad 100644
--- a/BayesicFitting/source/MaxLikelihoodFitter.py
+++ b/BayesicFitting/source/MaxLikelihoodFitter.py
@@ -271,7 +271,8 @@ class _Chisq( object ):
         """
         Return the Hessian matrix.
         """
-        return self._outer.getHessian( params=par, weights=self._weights, index=self._index )
+        param = self._outer.insertParameters( par, index=self._index )
+        return 2 * self._outer.getHessian( params=param, weights=self._weights, index=self._index )
 
 class _LogL( _Chisq ) :
     """
-- 
2.43.0


From 415a0e11c551ddbe3aaa65d53aebd47a39a03d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:34 +0000
Subject: [PATCH 094/144] fix: GaussErrorDistribution.hessianLogL had the wrong
 sign and squared the weights

---
 BayesicFitting/source/GaussErrorDistribution.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/GaussErrorDistribution.py b/BayesicFitting/source/GaussErrorDistribution.py
index 0d7a6ba..4858777 100644
--- a/BayesicFitting/source/GaussErrorDistribution.py
+++ b/BayesicFitting/source/GaussErrorDistribution.py
@@ -275,22 +275,23 @@ class GaussErrorDistribution( ScaledErrorDistribution ):
         np = problem.npars
         param = allpars[:np]
         scale = allpars[np]
-        s2 = scale * scale
+        s2 = scale * scale + problem.varyy
 
-        fi = fitIndex if fitIndex[-1] != np else fitIndex[-1:]
+        scaleFit = fitIndex[-1] == np or fitIndex[-1] < 0
+        fi = fitIndex[:-1] if scaleFit else fitIndex
 
         nf = len( fi )
         design = problem.partial( param )[:,fi]
         design = design.transpose()
-        deswgt = design
+        deswgt = design / s2
         if problem.hasWeights() :
-            deswgt *= problem.weights
+            deswgt = deswgt * problem.weights
 
         hessian = numpy.zeros( ( nh, nh ), dtype=float )
-        hessian[:nf,:nf] = numpy.inner( design, deswgt ) / s2
+        hessian[:nf,:nf] = - numpy.inner( design, deswgt )
 
-        if fitIndex[-1] == np :
-            hessian[nf,nf] = 2 * ( problem.ndata - nf ) / s2
+        if scaleFit :
+            hessian[nf,nf] = - 2 * ( problem.ndata - nf ) / ( scale * scale )
 
         return hessian
 
-- 
2.43.0


From 9a117e48a9bb3a01d08f2fa449e864133556ccbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 095/144] fix: LevenbergMarquardtFitter overwrote par0 and lost
 the values in keep when par0 was given

---
 BayesicFitting/source/LevenbergMarquardtFitter.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/BayesicFitting/source/LevenbergMarquardtFitter.py b/BayesicFitting/source/LevenbergMarquardtFitter.py
index 1e21cac..4f158da 100644
--- a/BayesicFitting/source/LevenbergMarquardtFitter.py
+++ b/BayesicFitting/source/LevenbergMarquardtFitter.py
@@ -181,10 +181,11 @@ class LevenbergMarquardtFitter( IterativeFitter ):
                         accuracy=accuracy, keep=keep )
 
 
-        trypar = self.model.parameters if par0 is None else par0
-
-#        if fitIndex is not None and len( fitIndex ) < len( par0 ) :
-#            par0 = par0[fitIndex]
+        trypar = self.model.parameters if par0 is None else numpy.asarray( par0, dtype=float )
+        if len( trypar ) > len( fitIndex ) :
+            trypar = trypar[fitIndex]
+        trypar = self.insertParameters( trypar, index=fitIndex )
+        self.model.parameters = trypar
 
         self.chi = self.chiSquaredExtra( data, trypar, weights=fitWgts ) + 1
 
@@ -259,7 +260,7 @@ class LevenbergMarquardtFitter( IterativeFitter ):
             if onEdge :
                 newpar = edgePar
 
-            trypar = self.insertParameters( newpar, index=fi, into=params )
+            trypar = self.insertParameters( newpar, index=fi, into=params.copy() )
 
             trychi = self.chiSquaredExtra( data, trypar, weights=weights )
 
-- 
2.43.0


From 3b17a529aa152cdcfadae61e35e56143c09eb761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 096/144] fix: the hessian of an iterative fitter was not the
 one at the final parameters

---
 BayesicFitting/source/BaseFitter.py               | 2 ++
 BayesicFitting/source/LevenbergMarquardtFitter.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index c283c78..8adcad6 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -288,6 +288,8 @@ class BaseFitter( object ):
         """
         Produce a plot of the results.
         """
+        self.__dict__.pop( "hessian", None )        # it was not calculated at the final parameters
+
         if plot :
             self.plotResult( xdata=self.xdata, ydata=ydata, model=self.model,
                     residuals=True, confidence=False, show=True )
diff --git a/BayesicFitting/source/LevenbergMarquardtFitter.py b/BayesicFitting/source/LevenbergMarquardtFitter.py
index 4f158da..421f934 100644
--- a/BayesicFitting/source/LevenbergMarquardtFitter.py
+++ b/BayesicFitting/source/LevenbergMarquardtFitter.py
@@ -233,7 +233,7 @@ class LevenbergMarquardtFitter( IterativeFitter ):
     #  *************************************************************************
     def trialfit( self, params, fi, data, weights, verbose, maxiter ):
 
-        hessian = self.getHessian( params=params, weights=weights, index=fi )
+        hessian = self.getHessian( params=params, weights=weights, index=fi ).copy()
 
         residu = data - self.model.result( self.xdata, params )
         if weights is not None :
-- 
2.43.0


From 4de3cf7a2cc9d8a690a8f556f3cb5d9c2b2745e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 097/144] fix: CurveFitter fixed the parameters in keep for all
 later fits too

---
 BayesicFitting/source/CurveFitter.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/CurveFitter.py b/BayesicFitting/source/CurveFitter.py
index f3d32d7..7d9aed5 100644
--- a/BayesicFitting/source/CurveFitter.py
+++ b/BayesicFitting/source/CurveFitter.py
@@ -134,10 +134,6 @@ class CurveFitter( IterativeFitter ):
         else :
             bounds = ( -numpy.inf, numpy.inf )
 
-        # Make requested fitIndex; save original one.
-        if keep is not None :
-            self.fitIndex = self.keepFixed( keep )
-
         # Make initial parameters
         p0 = self.model.parameters if inipar is None else inipar
         if fitIndex is not None :
@@ -196,7 +192,7 @@ class CurveFitter( IterativeFitter ):
             parameters for the model
         """
         params = Tools.toArray( fitpar, dtype=float, ndim=1 )
-        params = self.insertParameters( params )
+        params = self.insertParameters( params, index=self.lastIndex )
         res = self.model.result( xdata, params )
         if hasattr( self, "normdfdp" ) :
             extra = numpy.inner( self.normdfdp, params )
@@ -216,8 +212,8 @@ class CurveFitter( IterativeFitter ):
             parameters for the model
         """
         params = Tools.toArray( fitpar, dtype=float, ndim=1 )
-        params = self.insertParameters( params )
+        params = self.insertParameters( params, index=self.lastIndex )
 
-        design = self.getDesign( params=params, xdata=xdata, index=self.fitIndex )
+        design = self.getDesign( params=params, xdata=xdata, index=self.lastIndex )
         return design
 
-- 
2.43.0


From 902251eca4d6c84fde341fd5308fff012d15dfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 098/144] fix: CurveFitter failed with limits and fixed
 parameters and missed limits in a compound model

---
 BayesicFitting/source/CurveFitter.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/BayesicFitting/source/CurveFitter.py b/BayesicFitting/source/CurveFitter.py
index 7d9aed5..ce5da92 100644
--- a/BayesicFitting/source/CurveFitter.py
+++ b/BayesicFitting/source/CurveFitter.py
@@ -127,16 +127,24 @@ class CurveFitter( IterativeFitter ):
             sigma = 1 / numpy.sqrt( wgts )
 
         # Check for limits
+        npar = self.model.npchain
         if limits is not None :
-            bounds = limits
-        elif self.model.priors :
-            bounds = self.model.getLimits()
+            bounds = [numpy.asarray( lim, dtype=float ) for lim in limits]
         else :
-            bounds = ( -numpy.inf, numpy.inf )
+            bounds = [numpy.full( npar, -numpy.inf ), numpy.full( npar, numpy.inf )]
+            for k in range( npar ) :
+                try :
+                    prior = self.model.getPrior( k )
+                except IndexError :             # no prior, no limits
+                    continue
+                bounds[0][k] = prior.lowLimit
+                bounds[1][k] = prior.highLimit
+        # limits are needed only for the parameters to be fitted
+        bounds = [lim[fitIndex] if lim.ndim > 0 and len( lim ) == npar else lim for lim in bounds]
 
         # Make initial parameters
-        p0 = self.model.parameters if inipar is None else inipar
-        if fitIndex is not None :
+        p0 = self.model.parameters if inipar is None else numpy.asarray( inipar, dtype=float )
+        if len( p0 ) > len( fitIndex ) :
             p0 = p0[fitIndex]
 
         ydat = ydata
-- 
2.43.0


From 9a0f9eb2d03b4bbf5b31791a5edfe07c778f7130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 099/144] fix: AmoebaFitter failed with limits or size and
 fixed parameters

---
 BayesicFitting/source/AmoebaFitter.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/AmoebaFitter.py b/BayesicFitting/source/AmoebaFitter.py
index 7cada9a..991fb30 100644
--- a/BayesicFitting/source/AmoebaFitter.py
+++ b/BayesicFitting/source/AmoebaFitter.py
@@ -168,18 +168,25 @@ class AmoebaFitter( MaxLikelihoodFitter ):
 
         if par0 is None :
             par0 = self.model.parameters
+        par0 = numpy.asarray( par0, dtype=float )
         if fitIndex is not None and len( fitIndex ) < len( par0 ) :
             par0 = par0[fitIndex]
 
         kwargs = {}
         if size is not None :
+            size = numpy.asarray( size, dtype=float )
+            if size.ndim > 0 and len( size ) == self.model.npchain :
+                size = size[fitIndex]
             kwargs["size"] = size
         if seed is not None :
             kwargs["seed"] = seed
         if temp is not None :
             kwargs["temp"] = temp
         if limits is not None :
-            kwargs["limits"] = limits
+            npar = self.model.npchain
+            lohi = [numpy.asarray( lim, dtype=float ) for lim in limits]
+            kwargs["limits"] = [lim[fitIndex] if lim.ndim > 0 and len( lim ) == npar else lim
+                                for lim in lohi]
         if maxiter is not None :
             kwargs["maxiter"] = maxiter
         if tolerance is not None :
-- 
2.43.0


From 2c659806f40d74b6d5b195e695845df066144a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 100/144] fix: fitters failed when the accuracy is a list

---
 BayesicFitting/source/BaseFitter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 8adcad6..c55eebc 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -257,6 +257,9 @@ class BaseFitter( object ):
             if weights is not None :
                 weights = numpy.asarray( weights )
 
+        if Tools.length( accuracy ) > 1 :
+            accuracy = numpy.asarray( accuracy )
+
         self.weights = weights
         self.accuracy = accuracy
         self.__dict__.pop( "hessian", None )        # it belongs to the previous fit
@@ -496,7 +499,7 @@ class BaseFitter( object ):
         if  accuracy is not None :
             if not numpy.all( numpy.isfinite( accuracy ) ) :
                 raise ValueError( "Fitter: NaNs or Infs in accuracy" )
-            if not numpy.all( accuracy > 0 ) :
+            if not numpy.all( numpy.asarray( accuracy ) > 0 ) :
                 raise ValueError( "Fitter: zeros or negatives in accuracy" )
 
     def __getattr__( self, name ) :
-- 
2.43.0


From f67e4cbec14ee843b0b1b5fe3998a0031fdd5726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:20 +0000
Subject: [PATCH 101/144] fix: the noise scale of a fit with an error
 distribution was too large by the root of the number of data

---
 BayesicFitting/source/MaxLikelihoodFitter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/BayesicFitting/source/MaxLikelihoodFitter.py b/BayesicFitting/source/MaxLikelihoodFitter.py
index cbfc9ad..b1a9305 100644
--- a/BayesicFitting/source/MaxLikelihoodFitter.py
+++ b/BayesicFitting/source/MaxLikelihoodFitter.py
@@ -1,5 +1,6 @@
 import numpy as numpy
 
+from . import Tools
 from .IterativeFitter import IterativeFitter
 from .GaussErrorDistribution import GaussErrorDistribution
 from .LaplaceErrorDistribution import LaplaceErrorDistribution
@@ -305,6 +306,9 @@ class _LogL( _Chisq ) :
 
         super( _LogL, self ).__init__( outer, data, weights, index=index )
 
+        if weights is not None and Tools.length( weights ) == 1 :   # one weight for all data
+            weights = None if weights == 1 else numpy.full( len( data ), weights, dtype=float )
+
         self.problem = ClassicProblem( outer.model, xdata=outer.xdata, ydata=data,
             weights=weights )
 
-- 
2.43.0


From 667a94e765615276747c34ccdec3640532d1e128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 102/144] fix: AnnealingAmoeba kept a stale sum after putting
 the best point back in the simplex

---
 BayesicFitting/source/AnnealingAmoeba.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index 726bb83..54daf2d 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -465,6 +465,7 @@ class AnnealingAmoeba( object ):
                 if abs( self.fopt - ylo ) > tol :
                     self.simplex[ilo,:] = self.xopt[:]
                     self.values[ilo] = self.fopt
+                    self.sum = numpy.sum( self.simplex, axis=0 )
 
                     move = "replace"
                     if self.iter < maxiter:
-- 
2.43.0


From 4fd10a1d466fabcdec66b29be0bdad35664dffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 103/144] fix: AnnealingAmoeba never stopped on a flat function

---
 BayesicFitting/source/AnnealingAmoeba.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index 54daf2d..98de099 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -216,6 +216,7 @@ class AnnealingAmoeba( object ):
         # counters
         self.iter = 0
         self.ncalls = 0
+        self.expand = 0
 
         # initialize the simplex
         self.makeSimplex( xini, size )
@@ -471,7 +472,8 @@ class AnnealingAmoeba( object ):
                     if self.iter < maxiter:
                         continue
 
-                if self.iter == 0 :             ## it does not start. Inflate the simplex
+                if self.iter == 0 and self.expand < 20 :    ## it does not start. Inflate the simplex
+                    self.expand += 1
                     move = "expand"
                     ylo = self.inflateSimplex( ilo, DELTA )
                     trans += nfit
-- 
2.43.0


From 4164148af2ae3b1bd22b3bd0d454400c5266d8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:36 +0000
Subject: [PATCH 104/144] fix: AnnealingAmoeba, when verbose, changed the print
 options of numpy for everybody

---
 BayesicFitting/source/AnnealingAmoeba.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index 98de099..c2a2826 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -373,7 +373,6 @@ class AnnealingAmoeba( object ):
         if self.verbose > 0 :
             print( "Iteration   step     ", ( "temp" if ( self.temp > 0 ) else "" ),
                    "  minimum    values" )
-            numpy.set_printoptions( precision=3, suppress=True )
 
         maxiter = self.maxiter * ( 1 if self.temp == 0 else self.steps )
         while self.iter < maxiter :
-- 
2.43.0


From 79496eb95cce995ff6bf9cf5e9a9373fe65cfb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:36 +0000
Subject: [PATCH 105/144] fix: Tools.printclass changed the print options of
 numpy for everybody

---
 BayesicFitting/source/Tools.py | 70 +++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 35 deletions(-)

diff --git a/BayesicFitting/source/Tools.py b/BayesicFitting/source/Tools.py
index 485130d..0f13c0a 100644
--- a/BayesicFitting/source/Tools.py
+++ b/BayesicFitting/source/Tools.py
@@ -381,41 +381,41 @@ def printclass( cls, nitems=8, printId=False ) :
     """
     Print the attributes of a class.
     """
-    numpy.set_printoptions( precision=3, threshold=10, edgeitems=4 )
-
-    ###  Import Model here to avoid circular imports ###
-    from .Model import Model
-    from .Problem import Problem
-
-    print( "+++++++++++++++++++++++++++++++++++++++++++++++++++++++" )
-    print( cls, " at ", id( cls ) ) if printId else  print( cls )
-    print( "+++++++++++++++++++++++++++++++++++++++++++++++++++++++" )
-    atr = vars( cls )
-    ld = list( atr.keys() )
-    ld.sort()
-    for key in ld :
-        print( "%-15.15s "%key, end="" )
-        val = atr[key]
-        if isinstance( val, (list,numpy.ndarray) ) :
-            printlist( val, nitems=nitems )
-        elif isinstance( val, str ) :
-            print( shortName( val ) )
-        elif isinstance( val, ( Model, Problem ) ) :
-            print( val._toString( indent="                " ) )
-        elif key == "model" :
-            print( val.shortName( ) )
-        elif inspect.ismethod( val ) :
-            print( "-->", val.__name__ )
-        else :
-            try :
-                valstr = val.__str__()
-                if valstr.startswith( '<BayesicFitting' ) :
-                    print( valstr.split()[0].split( '.' )[-1] )
-                else : 
-                    print( valstr )
-            except Exception :
-                print( val )
-    print( "+++++++++++++++++++++++++++++++++++++++++++++++++++++++" )
+    with numpy.printoptions( precision=3, threshold=10, edgeitems=4 ) :
+
+        ###  Import Model here to avoid circular imports ###
+        from .Model import Model
+        from .Problem import Problem
+
+        print( "+++++++++++++++++++++++++++++++++++++++++++++++++++++++" )
+        print( cls, " at ", id( cls ) ) if printId else  print( cls )
+        print( "+++++++++++++++++++++++++++++++++++++++++++++++++++++++" )
+        atr = vars( cls )
+        ld = list( atr.keys() )
+        ld.sort()
+        for key in ld :
+            print( "%-15.15s "%key, end="" )
+            val = atr[key]
+            if isinstance( val, (list,numpy.ndarray) ) :
+                printlist( val, nitems=nitems )
+            elif isinstance( val, str ) :
+                print( shortName( val ) )
+            elif isinstance( val, ( Model, Problem ) ) :
+                print( val._toString( indent="                " ) )
+            elif key == "model" :
+                print( val.shortName( ) )
+            elif inspect.ismethod( val ) :
+                print( "-->", val.__name__ )
+            else :
+                try :
+                    valstr = val.__str__()
+                    if valstr.startswith( '<BayesicFitting' ) :
+                        print( valstr.split()[0].split( '.' )[-1] )
+                    else : 
+                        print( valstr )
+                except Exception :
+                    print( val )
+        print( "+++++++++++++++++++++++++++++++++++++++++++++++++++++++" )
             
 
 def printlist( val, nitems=8 ) :
-- 
2.43.0


From cd23ef55fcb584551d495a32e248bbf3c5b48266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:30 +0000
Subject: [PATCH 106/144] fix: the gradient function of the user was called
 with more than its parameters

---
 BayesicFitting/source/MaxLikelihoodFitter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/BayesicFitting/source/MaxLikelihoodFitter.py b/BayesicFitting/source/MaxLikelihoodFitter.py
index b1a9305..a2c7091 100644
--- a/BayesicFitting/source/MaxLikelihoodFitter.py
+++ b/BayesicFitting/source/MaxLikelihoodFitter.py
@@ -251,8 +251,7 @@ class _Chisq( object ):
         """
         Return an efficient calculation of the gradient.
         """
-        return self._outer.userGradient( self._outer.xdata, par, self._data,
-                                  weights=self._weights, index=self._index )
+        return self._outer.userGradient( par )
 
     def dfunc( self, par ):
         """
-- 
2.43.0


From 7e56e2d23478c20f56b18709bfde6dc78d3fddee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:30 +0000
Subject: [PATCH 107/144] fix: ScipyFitter failed with constraint functions

---
 BayesicFitting/source/ScipyFitter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index d620805..9d0bdc3 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -266,6 +266,10 @@ class ScipyFitter( MaxLikelihoodFitter ):
         if self.method == 'COBYLA' and limits is not None:
             warnings.warn('Method %s cannot handle limits.' % self.method, RuntimeWarning)
 
+        # scipy wants dictionaries
+        if isinstance( constraints, ( list, tuple ) ) :
+            constraints = [{"type" : "ineq", "fun" : c} if callable( c ) else c for c in constraints]
+
         # - callback
         if (self.method in ['COBYLA'] and callback is not None):
             warnings.warn('Method %s does not support callback.' % self.method, RuntimeWarning)
-- 
2.43.0


From 5d6898f900fd1ba8559d11a21af3df541804f843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:32 +0000
Subject: [PATCH 108/144] fix: problems and samplers failed when the accuracy
 is a list

---
 BayesicFitting/source/Problem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BayesicFitting/source/Problem.py b/BayesicFitting/source/Problem.py
index c8e369a..0562b51 100644
--- a/BayesicFitting/source/Problem.py
+++ b/BayesicFitting/source/Problem.py
@@ -183,6 +183,8 @@ class Problem( object ):
             Either one value for all or one for each data point
             When None the value is set to 0 (for easy computational reasons)
         """
+        if isinstance( accuracy, ( list, tuple ) ) :
+            accuracy = numpy.asarray( accuracy, dtype=float )
         self.hasAccuracy = accuracy is not None
         self.accuracy = accuracy if self.hasAccuracy else 0
         self.varyy = self.accuracy * self.accuracy
-- 
2.43.0


From fe528344c84a556a92f3efb9a9cd5d6fed9cf036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:21 +0000
Subject: [PATCH 109/144] fix: the noise scale of ExponentialErrorDistribution
 was too small by power**(1/power)

---
 BayesicFitting/source/ExponentialErrorDistribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ExponentialErrorDistribution.py b/BayesicFitting/source/ExponentialErrorDistribution.py
index 68a3df8..e8e144b 100644
--- a/BayesicFitting/source/ExponentialErrorDistribution.py
+++ b/BayesicFitting/source/ExponentialErrorDistribution.py
@@ -235,7 +235,7 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
         """
         power = allpars[-1]
         chi = self.getChipow( problem, allpars=allpars )
-        return math.pow( chi / problem.sumweight, 1.0 / power )
+        return math.pow( power * chi / problem.sumweight, 1.0 / power )
 
 
     def partialLogL_alt( self, problem, allpars, fitIndex ) :
-- 
2.43.0


From ee850d5eb7c8a8cb2fb7021bc62c25ed8ee74984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:48 +0000
Subject: [PATCH 110/144] fix: the noise scale of CauchyErrorDistribution was
 not where the average of log( 1 + (r/s)^2 ) is log( 4 )

---
 BayesicFitting/source/CauchyErrorDistribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/CauchyErrorDistribution.py b/BayesicFitting/source/CauchyErrorDistribution.py
index ff7d56e..95fc0fe 100644
--- a/BayesicFitting/source/CauchyErrorDistribution.py
+++ b/BayesicFitting/source/CauchyErrorDistribution.py
@@ -124,7 +124,7 @@ class CauchyErrorDistribution( ScaledErrorDistribution ):
         Internal use, only.
         """
         return ( numpy.sum( numpy.log( self.res2 + scale * scale ) ) -
-                self.sumweight * ( 2 * math.log( scale ) + math.sqrt( 2.0 ) ) )
+                self.sumweight * ( 2 * math.log( scale ) + 2 * math.log( 2.0 ) ) )
 
     #  *********LIKELIHOODS***************************************************
     def logLikelihood_alt( self, problem, allpars ):
-- 
2.43.0


From d4df0ba71023e384787ed43e56aa4a88abb12d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:31 +0000
Subject: [PATCH 111/144] fix: getScale( problem, allpars ) of
 BernoulliErrorDistribution used none of the parameters

---
 BayesicFitting/source/ErrorDistribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ErrorDistribution.py b/BayesicFitting/source/ErrorDistribution.py
index 774f9be..8b5273e 100644
--- a/BayesicFitting/source/ErrorDistribution.py
+++ b/BayesicFitting/source/ErrorDistribution.py
@@ -189,7 +189,7 @@ class ErrorDistribution( object ):
             param = problem.model.parameters
         else :
             nh = self.nphypar
-            param = allpars[:-nh]
+            param = allpars[:-nh] if nh > 0 else allpars
 
         return problem.residuals( param )
 
-- 
2.43.0


From 9daa61f64303f0bb874c0fe7fe188c839d51f95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:31 +0000
Subject: [PATCH 112/144] fix: CauchyErrorDistribution.getScale() failed when
 the scale was outside 0.001 and 100

---
 BayesicFitting/source/CauchyErrorDistribution.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/CauchyErrorDistribution.py b/BayesicFitting/source/CauchyErrorDistribution.py
index 95fc0fe..1f45dfd 100644
--- a/BayesicFitting/source/CauchyErrorDistribution.py
+++ b/BayesicFitting/source/CauchyErrorDistribution.py
@@ -116,7 +116,13 @@ class CauchyErrorDistribution( ScaledErrorDistribution ):
         self.res2 = res * res
         self.sumweight = problem.sumweight
 
-        scale = scipy.optimize.bisect( self.funct, 0.001, 100.0 )
+        hi = numpy.max( numpy.abs( res ) )
+        if hi == 0 :
+            return 0.0
+        lo = hi
+        while self.funct( lo ) < 0 :
+            lo /= 2
+        scale = scipy.optimize.bisect( self.funct, lo, hi )
         return scale
 
     def funct( self, scale ) :
-- 
2.43.0


From 0cdb66b51d0f67699a5de802c70c3b63e8d3f8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:40 +0000
Subject: [PATCH 113/144] fix: the numeric partials of models without
 basePartial failed when a parameter is replaced by a model

---
 BayesicFitting/source/FixedModel.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/BayesicFitting/source/FixedModel.py b/BayesicFitting/source/FixedModel.py
index e7c37fa..790c048 100644
--- a/BayesicFitting/source/FixedModel.py
+++ b/BayesicFitting/source/FixedModel.py
@@ -363,15 +363,25 @@ class FixedModel( BaseModel ):
             list of indices active parameters (or None for all)
 
         """
-        warnings.warn( self.shortName() + " has no partials defined; " +
+        warnings.warn( type( self ).__name__ + " has no partials defined; " +
                     "using numeric partials." )
 
+        par = numpy.asarray( param )
+        par = par.astype( object if par.dtype == object else float )
         if parlist is None :
-            return FixedModel.numPartial( self, xdata, param, parlist=parlist )
+            parlist = numpy.arange( len( par ) )
 
-        par = param[parlist]
-        pl = numpy.arange( len( par ), dtype=int )
-        return FixedModel.numPartial( self, xdata, par, parlist=pl )
+        partial = numpy.zeros( ( Tools.length( xdata ), len( parlist ) ), dtype=float  )
+        for i, k in enumerate( parlist ) :
+            dp = self.deltaP[min( k, len( self.deltaP ) - 1 )]
+            pk = par[k]
+            par[k] = pk + 0.5 * dp
+            r1 = self.baseResult( xdata, par )
+            par[k] = pk - 0.5 * dp
+            r2 = self.baseResult( xdata, par )
+            partial[:,i] = ( r1 - r2 ) / dp
+            par[k] = pk
+        return partial
 
     def derivative( self, xdata, param ) :
         """
-- 
2.43.0


From 2151e705b40608870939102ca63293bb48bbd979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:40 +0000
Subject: [PATCH 114/144] fix: models without baseDerivative had no derivative,
 in stead of a numeric one

---
 BayesicFitting/source/FixedModel.py | 40 ++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/BayesicFitting/source/FixedModel.py b/BayesicFitting/source/FixedModel.py
index 790c048..4330182 100644
--- a/BayesicFitting/source/FixedModel.py
+++ b/BayesicFitting/source/FixedModel.py
@@ -422,15 +422,43 @@ class FixedModel( BaseModel ):
         ------
         ValueError when the number of xdata dimensions > 1.
 
+        """
+        return self._centralDifference( lambda x : FixedModel.result( self, x, param ), xdata )
+
+    def baseDerivative( self, xdata, param ) :
+        """
+        Replacement for models that dont define a derivative.
+
+        Parameters
+        ----------
+        xdata : array_like
+            values at which to calculate the derivative
+        param : array_like
+            values for the parameters.
+
+        """
+        return self._centralDifference( lambda x : self.baseResult( x, param ), xdata )
+
+    def _centralDifference( self, func, xdata ) :
+        """
+        Returns the numeric derivative of func to xdata
+
+        Parameters
+        ----------
+        func : callable
+            function of the form func( x )
+        xdata : array_like
+            values at which to calculate the derivative
+
         """
         dx = self.deltaP[0]
 
         ## One dimensional input; one or more dimensional outputs
         if self.ndim == 1 :
             xd = xdata + dx
-            r1 = FixedModel.result( self, xd, param )
+            r1 = func( xd )
             xd = xdata - dx
-            r2 = FixedModel.result( self, xd, param )
+            r2 = func( xd )
 
             return ( r1 - r2 ) / ( 2 * dx )
 
@@ -440,9 +468,9 @@ class FixedModel( BaseModel ):
             for i in range( self.ndim ) :
                 x = xdata.copy()
                 x[:,i] += dx
-                r1 = FixedModel.result( self, x, param )
+                r1 = func( x )
                 x[:,i] -= 2 * dx
-                r2 = FixedModel.result( self, x, param )
+                r2 = func( x )
                 df[:,i] = ( r1 - r2 ) / ( 2 * dx )
             return df
 
@@ -453,9 +481,9 @@ class FixedModel( BaseModel ):
             for i in range( self.ndim ) :
                 x = xdata.copy()
                 x[:,i] += dx
-                r1 = FixedModel.result( self, x, param )
+                r1 = func( x )
                 x[:,i] -= 2 * dx
-                r2 = FixedModel.result( self, x, param )
+                r2 = func( x )
                 df[:,i] = ( r1 - r2 ) / ( 2 * dx )
             dfdx += [df]
         return dfdx
-- 
2.43.0


From e1196f00a03ef1e55e43e4531b1410e469b15312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:40 +0000
Subject: [PATCH 115/144] fix: UserModel failed when a parameter is fixed, and,
 without partials of the user, in a compound model

---
 BayesicFitting/source/UserModel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/UserModel.py b/BayesicFitting/source/UserModel.py
index 0680a63..0a851fb 100644
--- a/BayesicFitting/source/UserModel.py
+++ b/BayesicFitting/source/UserModel.py
@@ -127,13 +127,13 @@ class UserModel( Model ):
             setatt( self, "userDerivative", copy.userDerivative )
             setatt( self, "userName", copy.userName, type=str )
         else :
-            self.setMethod( "userPartial", userPartial, numeric=self.numPartial )
-            self.setMethod( "userDerivative", userDeriv, numeric=self.numDerivative )
+            self.setMethod( "userPartial", userPartial, numeric=super().basePartial )
+            self.setMethod( "userDerivative", userDeriv, numeric=super().baseDerivative )
             setatt( self, "userName", userName, type=str )
 
     def copy( self ):
         """ Copy method.  """
-        return UserModel( self.npars, self.baseResult, ndim=self.ndim, copy=self )
+        return UserModel( self.npmax, self.userResult, ndim=self.ndim, copy=self )
 
     def setMethod( self, name, userMethod, numeric=None ) :
         if callable( userMethod ) :
@@ -175,7 +175,7 @@ class UserModel( Model ):
         if parlist is None :
             return self.userPartial( xdata, params )
         else :
-            return self.userPartial( xdata, params )[parlist]
+            return self.userPartial( xdata, params )[:,parlist]
 
     def baseDerivative( self, xdata, params ) :
         """
-- 
2.43.0


From d273db6c65feadb1fc5a21367f3732f6c1d57677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:10 +0000
Subject: [PATCH 116/144] fix: numDerivative failed for models with more inputs
 and more outputs

---
 BayesicFitting/source/FixedModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/FixedModel.py b/BayesicFitting/source/FixedModel.py
index 4330182..e923f88 100644
--- a/BayesicFitting/source/FixedModel.py
+++ b/BayesicFitting/source/FixedModel.py
@@ -484,7 +484,7 @@ class FixedModel( BaseModel ):
                 r1 = func( x )
                 x[:,i] -= 2 * dx
                 r2 = func( x )
-                df[:,i] = ( r1 - r2 ) / ( 2 * dx )
+                df[:,i] = ( r1 - r2 )[:,k] / ( 2 * dx )
             dfdx += [df]
         return dfdx
 
-- 
2.43.0


From d11fda2a649b944dceb84cd308672d930ba0d6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:10 +0000
Subject: [PATCH 117/144] fix: the derivative of AstropyModel failed

---
 BayesicFitting/source/AstropyModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/AstropyModel.py b/BayesicFitting/source/AstropyModel.py
index 30afacf..7ca5f78 100644
--- a/BayesicFitting/source/AstropyModel.py
+++ b/BayesicFitting/source/AstropyModel.py
@@ -170,7 +170,7 @@ class AstropyModel( Model ):
             values for the parameters.
 
         """
-        self.numDerivative( xdata, params )
+        return super().baseDerivative( xdata, params )
 
     def baseName( self ):
         """
-- 
2.43.0


From 7401ac942e0c8a9028894051f6911c7d23f7a8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:29 +0000
Subject: [PATCH 118/144] fix: ErrorDistribution.keepFixed had no effect

---
 BayesicFitting/source/ErrorDistribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/ErrorDistribution.py b/BayesicFitting/source/ErrorDistribution.py
index 8b5273e..395f821 100644
--- a/BayesicFitting/source/ErrorDistribution.py
+++ b/BayesicFitting/source/ErrorDistribution.py
@@ -266,15 +266,15 @@ class ErrorDistribution( object ):
         if self.hyperpar is None :
             return None
 
-        # Reset all fixed to False
+        # Reset: without a prior a hyperparameter stays fixed
         for s in self.hyperpar :
-            s.fixed = False
+            s.isFixed = s.prior is None
 
         if fixed is None :
             return None
 
         for f in fixed.keys() :
-            self.hyperpar[f].fixed = True
+            self.hyperpar[f].isFixed = True
             self.hyperpar[f].hypar = fixed[f]
 
         return fixed
-- 
2.43.0


From 9d5be1f8e89ae9506bd8e9efcbe5cc96b8bfd24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:29 +0000
Subject: [PATCH 119/144] fix: with order='F' the data of ImageAssistant did
 not pertain to its indices

---
 BayesicFitting/source/ImageAssistant.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/ImageAssistant.py b/BayesicFitting/source/ImageAssistant.py
index 866dd67..dccc1cd 100644
--- a/BayesicFitting/source/ImageAssistant.py
+++ b/BayesicFitting/source/ImageAssistant.py
@@ -168,7 +168,7 @@ class ImageAssistant( object ):
         ya : array_like
             map to be reshaped
         """
-        return numpy.reshape( ya.copy(), ya.size, order=self.order )
+        return numpy.reshape( ya.copy(), ya.size )
 
     def resizeData( self, res, shape=None ):
         """
@@ -185,7 +185,7 @@ class ImageAssistant( object ):
         if shape is None :
             shape = self.shape
 
-        return numpy.reshape( res, shape, order=self.order )
+        return numpy.reshape( res, shape )
 
 
 
-- 
2.43.0


From 5257b5151cf879b63e685a06f95af9c3e293f001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:23 +0000
Subject: [PATCH 120/144] fix: the order given to getIndices and getPositions
 of ImageAssistant had no effect

---
 BayesicFitting/source/ImageAssistant.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/BayesicFitting/source/ImageAssistant.py b/BayesicFitting/source/ImageAssistant.py
index dccc1cd..1970e50 100644
--- a/BayesicFitting/source/ImageAssistant.py
+++ b/BayesicFitting/source/ImageAssistant.py
@@ -90,7 +90,7 @@ class ImageAssistant( object ):
         self.order = order
         self.shape = None
 
-    def getIndices( self, ya, order='C' ):
+    def getIndices( self, ya, order=None ):
         """
         Generates indices for data arrays of any dimension.
 
@@ -100,8 +100,9 @@ class ImageAssistant( object ):
         ----------
         ya : map
             array of y ( data ) values for which an indexed array
-        order : 'C' or 'F'
+        order : None or 'C' or 'F'
             set index view according to character
+            None : as given in the constructor
 
         Returns
         -------
@@ -109,6 +110,7 @@ class ImageAssistant( object ):
 
         """
         self.shape = ya.shape
+        if order is None : order = self.order
 
         size = ya.size
         rank = ya.ndim
@@ -122,14 +124,14 @@ class ImageAssistant( object ):
             kr = rank - 1
             for k in range( rank ) :
                 for i in range( size ) :
-                    kk = kr if self.order == 'C' else k
+                    kk = kr if order == 'C' else k
                     kdata[i,kk] = ( i // dd ) % self.shape[kr]
                 dd *= self.shape[kr]
                 kr -= 1
 
             return kdata
 
-    def getPositions( self, ymap, order='C', center=True, deproject=None ) :
+    def getPositions( self, ymap, order=None, center=True, deproject=None ) :
         """
         Return the (x,y) positions of the pixels in the map.
 
@@ -137,8 +139,9 @@ class ImageAssistant( object ):
         ----------
         ya : map
             array of y ( data ) values for which an indexed array
-        order : 'C' or 'F'
+        order : None or 'C' or 'F'
             set index view according to character
+            None : as given in the constructor
         center : bool
             if True, return the positions of the center of the pixels.
             otherwise the (left,lower) corner
-- 
2.43.0


From c05c5f8b9ae3d5cff83ce16ed9a4807e63f51443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:50 +0000
Subject: [PATCH 121/144] fix: the units of the parameters were those of other
 ones when a parameter is fixed

---
 BayesicFitting/source/FixedModel.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/BayesicFitting/source/FixedModel.py b/BayesicFitting/source/FixedModel.py
index e923f88..fcc4f17 100644
--- a/BayesicFitting/source/FixedModel.py
+++ b/BayesicFitting/source/FixedModel.py
@@ -226,6 +226,28 @@ class FixedModel( BaseModel ):
                 mdl = mdl._next
         return nms
 
+    def getParameterUnit( self, kpar ) :
+        """
+        Return the unit of the indicated parameter, accounting for fixed ones.
+
+        Parameters
+        ----------
+        kpar : int
+            parameter number.
+        """
+        if self.fixed is None :
+            return super( FixedModel, self ).getParameterUnit( kpar )
+
+        k = self.parlist[kpar]
+        if k < self.npmax :
+            return super( FixedModel, self ).getParameterUnit( k )
+
+        k -= self.npmax
+        for m in self.mlist :
+            if k < self.fixed[m].npchain :
+                return self.fixed[m].getParameterUnit( k )
+            k -= self.fixed[m].npchain
+
     #  *****RESULT**************************************************************
     def result( self, xdata, param ):
         """
-- 
2.43.0


From 7653e342c10ebb8d4f3c3c8327fb7851c10312d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:50 +0000
Subject: [PATCH 122/144] fix: the units of the parameters of PolySurfaceModel
 had x and y interchanged

---
 BayesicFitting/source/PolySurfaceModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/PolySurfaceModel.py b/BayesicFitting/source/PolySurfaceModel.py
index 730a41a..3b25615 100644
--- a/BayesicFitting/source/PolySurfaceModel.py
+++ b/BayesicFitting/source/PolySurfaceModel.py
@@ -266,6 +266,6 @@ class PolySurfaceModel( LinearModel ):
         while k > dk:
             dk += 1
             k -= dk
-        return self.yUnit / ( ( self.xUnit[0]**k ) * ( self.xUnit[1] ** (dk-k) ) )
+        return self.yUnit / ( ( self.xUnit[0]**(dk-k) ) * ( self.xUnit[1] ** k ) )
 
 
-- 
2.43.0


From 6c2d00759852750b2bd745b2c9e76d4db981737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:50 +0000
Subject: [PATCH 123/144] fix: the balance of PseudoVoigtModel has no unit

---
 BayesicFitting/source/PseudoVoigtModel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BayesicFitting/source/PseudoVoigtModel.py b/BayesicFitting/source/PseudoVoigtModel.py
index 7abecc4..e52e5c2 100644
--- a/BayesicFitting/source/PseudoVoigtModel.py
+++ b/BayesicFitting/source/PseudoVoigtModel.py
@@ -1,4 +1,5 @@
 import numpy as numpy
+from astropy import units
 import math
 from . import Tools
 from .Tools import setAttribute as setatt
@@ -202,6 +203,8 @@ class PseudoVoigtModel( NonLinearModel ):
         """
         if k == 0:
             return self.yUnit
+        if k == 3:
+            return units.Unit( 1.0 )
         return self.xUnit
 
 
-- 
2.43.0


From 96b43521dd5a233cdc7b517ce2e374552ee62a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:50 +0000
Subject: [PATCH 124/144] fix: the units of the parameters of
 RadialVelocityModel were those of another model

---
 BayesicFitting/source/RadialVelocityModel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/RadialVelocityModel.py b/BayesicFitting/source/RadialVelocityModel.py
index a715168..27e4c57 100644
--- a/BayesicFitting/source/RadialVelocityModel.py
+++ b/BayesicFitting/source/RadialVelocityModel.py
@@ -244,6 +244,10 @@ class RadialVelocityModel( NonLinearModel ) :
 
         """
         if k == 0:
-            return units.Unit( units.si.rad ) / self.xUnit
-        return self.yUnit
+            return units.Unit( 1.0 )
+        if k == 1:
+            return self.yUnit
+        if k == 2:
+            return self.xUnit
+        return units.Unit( units.si.rad )
 
-- 
2.43.0


From e690431a2159e671639137d1f12ba9a21227e376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:50 +0000
Subject: [PATCH 125/144] fix: the unit of the period in StellarOrbitModel was
 that of a frequency

---
 BayesicFitting/source/StellarOrbitModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/StellarOrbitModel.py b/BayesicFitting/source/StellarOrbitModel.py
index bc98825..a2a16ef 100644
--- a/BayesicFitting/source/StellarOrbitModel.py
+++ b/BayesicFitting/source/StellarOrbitModel.py
@@ -411,11 +411,11 @@ class StellarOrbitModel( NonLinearModel ):
         """
 
         if k == 0:
-            return units.Unit( )
+            return units.Unit( 1.0 )
         elif k == 1 :
             return self.yUnit
         elif k == 2 :
-            return 1.0 / self.xUnit
+            return self.xUnit
         return units.Unit( units.si.rad )
 
 
-- 
2.43.0


From 27a868b324b8c8f38a1eb84abeb09af59743954f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:50 +0000
Subject: [PATCH 126/144] fix: the units of the parameters of
 SineSplineDriftModel ignored those of the frequency

---
 BayesicFitting/source/SineSplineDriftModel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/SineSplineDriftModel.py b/BayesicFitting/source/SineSplineDriftModel.py
index a961818..5217b4a 100644
--- a/BayesicFitting/source/SineSplineDriftModel.py
+++ b/BayesicFitting/source/SineSplineDriftModel.py
@@ -242,7 +242,10 @@ class SineSplineDriftModel( NonLinearModel ):
             the kth parameter.
 
         """
-        k = k % ( self.npbase / 2 )
+        nd = self.degree + 1
+        if k < nd :
+            return self.xUnit ** ( -1 - k )
+        k = ( k - nd ) % ( ( self.npmax - nd ) // 2 )
         if k > self.order :
             k = self.order
         return self.yUnit / ( self.xUnit ** k )
-- 
2.43.0


From 3aa8fd69be60e4b63420cb0dc6d2f78a092ca465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:50 +0000
Subject: [PATCH 127/144] fix: the first offset of SoftMaxModel had the unit of
 a connection

---
 BayesicFitting/source/SoftMaxModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/SoftMaxModel.py b/BayesicFitting/source/SoftMaxModel.py
index 27b9ac9..4050e25 100644
--- a/BayesicFitting/source/SoftMaxModel.py
+++ b/BayesicFitting/source/SoftMaxModel.py
@@ -228,6 +228,6 @@ class SoftMaxModel( NonLinearModel ):
             parameter number.
 
         """
-        xu = 1 if k > self.ndim * self.ndout else ( self.xUnit if self.ndim == 1 else self.xUnit[k % self.ndim] )
+        xu = 1 if k >= self.ndim * self.ndout else ( self.xUnit if self.ndim == 1 else self.xUnit[k % self.ndim] )
         return units.Unit( 1 ) / xu
 
-- 
2.43.0


From 67ca4a0c5a11d3196bef674c7c1d4e316db64140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:26 +0000
Subject: [PATCH 128/144] fix: the units of the parameters of SineSplineModel
 were those of other ones when a parameter is fixed

---
 BayesicFitting/source/SineSplineModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/SineSplineModel.py b/BayesicFitting/source/SineSplineModel.py
index b685745..78e40e4 100644
--- a/BayesicFitting/source/SineSplineModel.py
+++ b/BayesicFitting/source/SineSplineModel.py
@@ -219,7 +219,7 @@ class SineSplineModel( LinearModel ):
             the kth parameter.
 
         """
-        k = k % ( self.npbase / 2 )
+        k = k % ( self.npmax // 2 )
         if k > self.order :
             k = self.order
         return self.yUnit / ( self.xUnit ** k )
-- 
2.43.0


From bd9814fdb21093c076e740fc823a9829c019c8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:26 +0000
Subject: [PATCH 129/144] fix: the units of the parameters of PolySineAmpModel
 were those of other ones when a parameter is fixed

---
 BayesicFitting/source/PolySineAmpModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/PolySineAmpModel.py b/BayesicFitting/source/PolySineAmpModel.py
index 691a73f..b339fad 100644
--- a/BayesicFitting/source/PolySineAmpModel.py
+++ b/BayesicFitting/source/PolySineAmpModel.py
@@ -205,7 +205,7 @@ class PolySineAmpModel( LinearModel ):
             the kth parameter.
 
         """
-        np = self.npbase // 2
+        np = self.npmax // 2
         return self.yUnit / ( self.xUnit[1] ** ( k % np ) )
 
 
-- 
2.43.0


From ea2316abd87dd78b91ae543d17a2e518bf2c590b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:02 +0000
Subject: [PATCH 130/144] fix: the units given to a CombiModel did not reach
 its parameters

---
 BayesicFitting/source/CombiModel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BayesicFitting/source/CombiModel.py b/BayesicFitting/source/CombiModel.py
index fd6724e..51886e6 100644
--- a/BayesicFitting/source/CombiModel.py
+++ b/BayesicFitting/source/CombiModel.py
@@ -371,6 +371,8 @@ class CombiModel( BracketModel ):
             parameter number.
 
         """
+        self.model.xUnit = self.xUnit
+        self.model.yUnit = self.yUnit
         return self.model.getParameterUnit( self.select[k] % self.nmp )
 
     def getPrior( self, kpar ) :
-- 
2.43.0


From a863c45902eb307ac2726ceff9f50332b63d5570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:02 +0000
Subject: [PATCH 131/144] fix: the units of the parameters of ProductModel did
 not multiply to that of y

---
 BayesicFitting/source/ProductModel.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/BayesicFitting/source/ProductModel.py b/BayesicFitting/source/ProductModel.py
index 1035d0f..e70d5ca 100644
--- a/BayesicFitting/source/ProductModel.py
+++ b/BayesicFitting/source/ProductModel.py
@@ -224,24 +224,13 @@ class ProductModel( NonLinearModel ):
             the kth parameter.
 
         """
-        u = units.Unit( 1.0 )
-        n = 0
-
-#        print( self.attsingle )
-#        print( self.models[0].attsingle )
-#        print( self.models[1].attsingle )
-#        print( self.models[0].xUnit, self.models[1].xUnit )
-
-        for mdl in self.models :
+        for n,mdl in enumerate( self.models ) :
             mdl.xUnit = self.xUnit[n]
-#            print( mdl.ndim, mdl.xUnit, self.xUnit[n] )
-            nx = mdl.npbase
+            mdl.yUnit = self.yUnit if n == 0 else units.Unit( 1.0 )
+            nx = mdl.npchain
             if k < nx :
-#                print( k, nx, mdl.getParameterUnit( k ), u )
-                return mdl.getParameterUnit( k ) / u
-            n += 1
+                return mdl.getParameterUnit( k )
             k -= nx
-            u = self.yUnit
-        return u
+        return self.yUnit
 
 
-- 
2.43.0


From 98bd0e3c4e78b17f7c4e61e6c66f13102d9464f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:02 +0000
Subject: [PATCH 132/144] fix: the names and units of the parameters of
 SurfaceSplinesModel had the dimensions interchanged

---
 BayesicFitting/source/SurfaceSplinesModel.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/BayesicFitting/source/SurfaceSplinesModel.py b/BayesicFitting/source/SurfaceSplinesModel.py
index 9ace790..a17ab6d 100644
--- a/BayesicFitting/source/SurfaceSplinesModel.py
+++ b/BayesicFitting/source/SurfaceSplinesModel.py
@@ -205,11 +205,13 @@ class SurfaceSplinesModel( LinearModel ):
 
         """
         strpar = "param"
-        for mdl in self.models :
+        indices = ""
+        # in the parameters the last dimension runs fastest
+        for mdl in reversed( self.models ) :
             nx = mdl.npbase
-            strpar = strpar + "_%d"%(k%nx)
+            indices = "_%d"%(k%nx) + indices
             k = k // nx
-        return strpar
+        return strpar + indices
 
     def baseParameterUnit( self, k ):
         """
@@ -221,14 +223,12 @@ class SurfaceSplinesModel( LinearModel ):
 
         """
         u = self.yUnit
-        n = 0
-        for mdl in self.models :
-            nx = mdl.npbase
-            j = k % nx
-            if j > 3 : j = 3
+        # in the parameters the last dimension runs fastest
+        for n in reversed( range( self.ndim ) ) :
+            nx = self.models[n].npbase
+            j = min( k % nx, self.order[n] )
             k = k // nx
             u = u / ( self.xUnit[n] ** j )
-            n += 1
         return u
 
 
-- 
2.43.0


From b2077c4b114f3ec20881c794d26bc80a5ebc18e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:53 +0000
Subject: [PATCH 133/144] fix: RepeatingModel failed when the repeated model is
 a compound one

---
 BayesicFitting/source/RepeatingModel.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index d65045b..a215a26 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -201,11 +201,11 @@ class RepeatingModel( Model, Dynamic ):
         """
         self.same = same
         if same is None :
-            self.index = numpy.arange( self.model.npbase, dtype=int )
+            self.index = numpy.arange( self.model.npchain, dtype=int )
             return
 
         index = []
-        for k in range( self.model.npbase ) :
+        for k in range( self.model.npchain ) :
             if k not in self.same :
                 index += [k]
         self.index = numpy.asarray( index, dtype=int )
@@ -234,7 +234,7 @@ class RepeatingModel( Model, Dynamic ):
 
         location = self.npbase
 
-        dnp = self.deltaNpar if self.ncomp > 0 else self.model.npbase
+        dnp = self.deltaNpar if self.ncomp > 0 else self.model.npchain
         self.alterParameterSize( dnp, offset, location=location )
 
         head = self._head
@@ -274,7 +274,7 @@ class RepeatingModel( Model, Dynamic ):
             return False
 
         location = self.npbase
-        dnp = -( self.deltaNpar if self.ncomp > 1 else self.model.npbase )
+        dnp = -( self.deltaNpar if self.ncomp > 1 else self.model.npchain )
         self.alterParameterSize( dnp, offset, location=location )
 
         head = self._head
@@ -306,7 +306,7 @@ class RepeatingModel( Model, Dynamic ):
         if self.ncomp <= 1 :
             return param
 
-        off = self.model.npbase + offset
+        off = self.model.npchain + offset
         src = numpy.arange( self.ncomp ) * self.deltaNpar + off
         per = rng.permutation( self.ncomp )
         for i in self.index :
@@ -355,7 +355,7 @@ class RepeatingModel( Model, Dynamic ):
         if self.ncomp == 0 :
             return result
 
-        ke = self.model.npbase
+        ke = self.model.npchain
         pars = params[:ke].copy()
         k = 1
 
@@ -391,9 +391,9 @@ class RepeatingModel( Model, Dynamic ):
         if self.ncomp == 0 :
             return partial
 
-        ke = self.model.npbase
+        ke = self.model.npchain
         pars = params[:ke].copy()
-        full = numpy.arange( self.model.npbase, dtype=int )
+        full = numpy.arange( self.model.npchain, dtype=int )
         k = 1
         while True :
             partial[:,full] += self.model.partial( xdata, pars )
@@ -427,7 +427,7 @@ class RepeatingModel( Model, Dynamic ):
         if self.ncomp == 0 :
             return dfdx
 
-        ke = self.model.npbase
+        ke = self.model.npchain
         pars = params[:ke].copy()
         k = 1
         while True :
-- 
2.43.0


From 09e1fb7e611d36ce201129c7c8d1a16fd7bbe4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:53 +0000
Subject: [PATCH 134/144] fix: RepeatingModel without components had parameters
 when some are the same

---
 BayesicFitting/source/RepeatingModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index a215a26..bab9741 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -150,7 +150,7 @@ class RepeatingModel( Model, Dynamic ):
         if ncomp < minComp or ( maxComp is not None and ncomp > maxComp ) :
             raise ValueError( "ncomp outside range of [min..max] range" )
 
-        np = ncomp * model.npchain - ( ncomp - 1 ) * Tools.length( same )
+        np = ncomp * model.npchain - max( ncomp - 1, 0 ) * Tools.length( same )
         self.isDyna = dynamic and ( maxComp is None or minComp < maxComp )
 
         super( RepeatingModel, self ).__init__( np, copy=copy, **kwargs )
-- 
2.43.0


From e91236a06d410fd94f2ed8b4d816e3e2e603cb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:53 +0000
Subject: [PATCH 135/144] fix: SplinesDynamicModel could not shrink when it
 comes after other models

---
 BayesicFitting/source/SplinesDynamicModel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/SplinesDynamicModel.py b/BayesicFitting/source/SplinesDynamicModel.py
index 1390080..087347f 100644
--- a/BayesicFitting/source/SplinesDynamicModel.py
+++ b/BayesicFitting/source/SplinesDynamicModel.py
@@ -301,10 +301,11 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
         ## new value is the weighted average of the joined parameters
         value = 1.4 * ( mdlpar[kl] * r1 + mdlpar[kl+1] * r2 )
 
-        if self.getPrior( kl ).isOutOfLimits( value ) :
-            value = ( self.getPrior( kl ).stayInLimits( value ) + mdlpar[kl] + mdlpar[kl+1] ) / 3
+        prior = head.getPrior( kl )
+        if prior.isOutOfLimits( value ) :
+            value = ( prior.stayInLimits( value ) + mdlpar[kl] + mdlpar[kl+1] ) / 3
 
-        if self.getPrior( kl ).isOutOfLimits( value ) :
+        if prior.isOutOfLimits( value ) :
             print( "New shrink value out of limit" )
             print( "Knots ", k, fmt( r1 ), fmt( r2 ), fmt( dis ), fmt( self.knots, max=None ) )
             print( "Pars  ", fmt( mdlpar, max=None ) )
-- 
2.43.0


From ef90c91bc474c2c51a4f6cb2d8594bf0c901dfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:06 +0000
Subject: [PATCH 136/144] fix: DecisionTreeModel splits an axis with NaNs at
 its known values

---
 BayesicFitting/source/DecisionTreeModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index d2a8ed2..5ebbaa4 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -287,8 +287,8 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
         xd = Tools.getColumnData( xdata, self.dimension )[plist]        ## working data
 
         if self.split is not None :
-            mn = numpy.min( xd )
-            mx = numpy.max( xd )
+            mn = numpy.nanmin( xd )
+            mx = numpy.nanmax( xd )
 
             split = mn + ( mx - mn ) * self.split
             ### add NAN values to the smallest fraction
-- 
2.43.0


From cd4eb3917fb70328296c3ca871c07d9b5898ffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:06 +0000
Subject: [PATCH 137/144] fix: DecisionTreeModel.shrink removes one component;
 grow and shrink in a chain

---
 BayesicFitting/source/DecisionTreeModel.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 5ebbaa4..c053ed3 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -773,7 +773,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         ## count leafs (parameters) and branches (components)
         cleaf, cbran = self.count()
-        dnp = cleaf - self.npars
+        dnp = cleaf - self.npbase
 
         ## duplicate the parameter
         value = self._head.parameters[offset+location]
@@ -826,15 +826,17 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
             return False
 
 
-        ## Erase the branch by putting the leafs to None
-        setatt( parent, "left", None )
-        setatt( parent, "rite", None )
-        setatt( parent, "split", None )
-        setatt( parent, "dimension", None )
+        ## Erase the branch; what was next to the leaf takes its place
+        other = parent.rite if leaf is parent.left else parent.left
+        for name in ["left", "rite", "split", "mask", "dimension"] :
+            setatt( parent, name, getattr( other, name ) )
+        for child in [parent.left, parent.rite] :
+            if child is not None :
+                setatt( child, "parent", parent )
 
         cleaf, cbran = self.count()
-        dnp = cleaf - self.npars
-        location = min( location - dnp, self.npars )
+        dnp = cleaf - self.npbase
+        location -= dnp
         self.alterParameterSize( dnp, offset, location=location )
 
         head = self._head
-- 
2.43.0


From 9d1f0670649a40623022734273f1548e05fbc8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:06 +0000
Subject: [PATCH 138/144] fix: DecisionTreeModel.vary drops the split when it
 goes to a categorial axis

---
 BayesicFitting/source/DecisionTreeModel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index c053ed3..a9d4e99 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -256,8 +256,10 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         if itype == 0 :         ## float
             setatt( self, "split", split )
+            setatt( self, "mask", None )
         else :                  ## boolean (1) or categorial (>1)
             setatt( self, "mask", int( split * ( 0x1 << itype ) + 1 ) )
+            setatt( self, "split", None )
 
     def isLeaf( self ) :
         """
@@ -889,12 +891,14 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
                 else :                                  ## shift nearby
                     split = ( self.nsplit * parent.split + rng.rand() ) / ( self.nsplit + 1 )
                 setatt( parent, "split", split )
+                setatt( parent, "mask", None )
             elif itype == 1 :                           ## make new mask
                 if parent.mask is None :
                     mask = rng.randint( 2 ) + 1
                 else :                                  ## exchange bits
                     mask = 2 if parent.mask == 1 else 1
                 setatt( parent, "mask", mask )
+                setatt( parent, "split", None )
             else :
                 if parent.mask is None :                ## make new mask
                     mask = rng.randint( 0x1 << itype ) + 1
@@ -902,6 +906,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
                     kr = rng.randint( itype )
                     mask = parent.mask ^ ( 0x1 << kr )
                 setatt( parent, "mask", mask )
+                setatt( parent, "split", None )
 
         else :
             parent = self.findBranch( location )
-- 
2.43.0


From 0e2898b50a5f90e7d5dd32cb12ac9e6bbcc3557d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:06 +0000
Subject: [PATCH 139/144] fix: DecisionTreeModel leaves the split list of the
 caller alone

---
 BayesicFitting/source/DecisionTreeModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index a9d4e99..2d133f1 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -156,7 +156,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
             klen = Tools.length( kdim )
             if not isinstance( split, list ) : split = [split]
             for k in range(  Tools.length( split ), klen ) :
-                split += [Tools.getItem( split, k )]
+                split = split + [Tools.getItem( split, k )]
 
             self.setSplitOrMask( itype, split[0] )
 
-- 
2.43.0


From c71a6411f7e994520126708324e40e4d045c4d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:06 +0000
Subject: [PATCH 140/144] fix: DecisionTreeModel from a code has as many
 parameters as it has leafs

---
 BayesicFitting/source/DecisionTreeModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 2d133f1..12ebd39 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -142,7 +142,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
         Dynamic.__init__( self, dynamic=dynamic )
 
         if depth == 0 or code is not None :
-            nparams = 1
+            nparams = 1 if code is None else Tools.length( kdim ) + 1
             setatt( self, "left", None )
             setatt( self, "rite", None )
             setatt( self, "split", None )
-- 
2.43.0


From ef223fbec985fbaab47e17260a715b0101f1d52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:06 +0000
Subject: [PATCH 141/144] fix: DecisionTreeModel of one leaf has a result for
 each input

---
 BayesicFitting/source/DecisionTreeModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 12ebd39..03c410d 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -325,7 +325,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         kpar = 0
         if self.isLeaf() :
-            return params[0]
+            return res + params[0]
 
         res, kpar = self.recursiveResult( xdata, params, kpar, plist, res )
 
-- 
2.43.0


From 109a4fa0a29e6f043e9954591e057cc514e28cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:06 +0000
Subject: [PATCH 142/144] fix: DecisionTreeModel with fixed parameters

---
 BayesicFitting/source/DecisionTreeModel.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 03c410d..bb4c881 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -143,6 +143,8 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         if depth == 0 or code is not None :
             nparams = 1 if code is None else Tools.length( kdim ) + 1
+            if copy is not None :
+                nparams = copy.npmax
             setatt( self, "left", None )
             setatt( self, "rite", None )
             setatt( self, "split", None )
@@ -163,7 +165,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
             kd1 = kdim[1:]
             sp1 = split[1:]
             left = DecisionTreeModel( ndim=ndim, depth=d, kdim=kd1, split=sp1,
-                                      itypes=itypes, **kwargs )
+                                      itypes=itypes )
             setatt( self, "left", left )
             setatt( self.left, "parent", self )
 
@@ -171,7 +173,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
             kd2 = kd1[ns:]
             sp2 = sp1[ns:]
             rite = DecisionTreeModel( ndim=ndim, depth=d, kdim=kd2, split=sp2,
-                                      itypes=itypes, **kwargs )
+                                      itypes=itypes )
             setatt( self, "rite", rite )
             setatt( self.rite, "parent", self )
             nparams = self.left.npars + self.rite.npars
@@ -365,17 +367,18 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         """
         ndata = Tools.length( xdata )
-        plist = numpy.arange( ndata, dtype=int ) if parlist is None else parlist
+        plist = numpy.arange( ndata, dtype=int )
 
         kpar = 0
         if self.isLeaf() :
-            return numpy.ones( (ndata,1), dtype=float )
+            part = numpy.ones( (ndata,1), dtype=float )
+            return part if parlist is None else part[:,parlist]
 
-        part = numpy.zeros( (ndata, self.npbase), dtype=float )
+        part = numpy.zeros( (ndata, self.npmax), dtype=float )
 
         part, kpar = self.recursivePartial( xdata, kpar, plist, part )
 
-        return part
+        return part if parlist is None else part[:,parlist]
 
     def recursivePartial( self, xdata, kpar, plist, part ) :
         """ For internal use only """
-- 
2.43.0


From 271fdce1a0327deb0e299e8e5009839f04cb832f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:30 +0000
Subject: [PATCH 143/144] fix: DecisionTreeModel from a code has as many
 components as it has branches

---
 BayesicFitting/source/DecisionTreeModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index bb4c881..9c91305 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -189,7 +189,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
                 growPrior = ExponentialPrior( scale=2 )
             setatt( self, "growPrior", growPrior )
             setatt( self, "itypes", itypes )
-            setatt( self, "ncomp", ( 0x1 << depth ) - 1 )
+            setatt( self, "ncomp", ( 0x1 << depth ) - 1 if code is None else nparams - 1 )
 #            setatt( self, "nsplit", 3 )
 #            self.setLimits( 0, 1 )
             setatt( self, "nsplit", self.NSPLITPRIOR )
-- 
2.43.0


From 176314fa574dc60a5d6bf71b1742234ddc374a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:03 +0000
Subject: [PATCH 144/144] fix: DecisionTreeModel put both values of a boolean
 axis on the same side

---
 BayesicFitting/source/DecisionTreeModel.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 9c91305..45e0a7b 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -260,7 +260,8 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
             setatt( self, "split", split )
             setatt( self, "mask", None )
         else :                  ## boolean (1) or categorial (>1)
-            setatt( self, "mask", int( split * ( 0x1 << itype ) + 1 ) )
+            mask = 1 if itype == 1 else int( split * ( 0x1 << itype ) + 1 )
+            setatt( self, "mask", mask )
             setatt( self, "split", None )
 
     def isLeaf( self ) :
@@ -895,12 +896,8 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
                     split = ( self.nsplit * parent.split + rng.rand() ) / ( self.nsplit + 1 )
                 setatt( parent, "split", split )
                 setatt( parent, "mask", None )
-            elif itype == 1 :                           ## make new mask
-                if parent.mask is None :
-                    mask = rng.randint( 2 ) + 1
-                else :                                  ## exchange bits
-                    mask = 2 if parent.mask == 1 else 1
-                setatt( parent, "mask", mask )
+            elif itype == 1 :                           ## there is only one way
+                setatt( parent, "mask", 1 )
                 setatt( parent, "split", None )
             else :
                 if parent.mask is None :                ## make new mask
-- 
2.43.0

