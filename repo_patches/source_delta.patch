From bd491da3a0af08897df847c666520bfe3662b568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:42 +0000
Subject: [PATCH 01/29] fix: give rxx, ryy and rzz the matrix-product-state
 evolution they declare (supportTN)

---
 deepquantum/gates/qoperator.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 786d458..0b21fff 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -641,6 +641,29 @@ class rxx(Operation):
         else:
             raise ValueError("Rxx gate input error! cannot expand")
     
+    def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
+        if self.nqubits == -1 or self.wires == -1:
+            raise ValueError(self.label+" gate input error! cannot TN_operation")
+        upqbit = min(self.wires)
+        downqbit = max(self.wires)
+        
+        for i in range(upqbit,downqbit-1):
+            MPS = SWAP(self.nqubits,[i,i+1]).TN_operation(MPS)
+        
+        temp = (MPS[downqbit-1].unsqueeze(1) @ MPS[downqbit].unsqueeze(0) ).permute(2,3,0,1)
+        shape = temp.shape
+        temp = temp.view(shape[0],shape[1],shape[2]*shape[3],1)
+        temp = self.matrix @ temp #两个比特地位对称，无需区分顺序
+        temp = temp.view(shape[0],shape[1],shape[2],shape[3])
+        temp = temp.permute(2,3,0,1)
+        #融合后的张量恢复成两个张量
+        MPS[downqbit-1],MPS[downqbit] = TensorDecompAfterTwoQbitGate(temp)
+        
+        for i in range(downqbit-1,upqbit,-1):
+            MPS = SWAP(self.nqubits,[i-1,i]).TN_operation(MPS)
+        
+        return MPS
+    
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
@@ -777,6 +800,8 @@ class ryy(Operation):
     
     
     
+    TN_operation = rxx.TN_operation
+    
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
@@ -911,6 +936,8 @@ class rzz(Operation):
         else:
             raise ValueError("Rzz gate input error! cannot expand")
     
+    TN_operation = rxx.TN_operation
+    
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
-- 
2.43.0


From ef86e1f0c2f8b56bf3435da04fc0fd14149ea27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:42 +0000
Subject: [PATCH 02/29] fix: measure(ith=0) measures qubit 0 only, not every
 qubit

---
 deepquantum/gates/qmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index 0c1fd99..058dc0a 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -208,7 +208,7 @@ def _Zmeasure(n_qubit:int, ith=None):
     #生成测量力学量的列表
     #print(n_qubit,type(n_qubit))
     M_lst = []
-    if not ith:
+    if ith is None:
         for i in range(n_qubit):
             Mi = dq.PauliZ(n_qubit, i).U_expand()
             M_lst.append(Mi)
-- 
2.43.0


From fabbf6a060eb64057118250620b3913b52686f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:42 +0000
Subject: [PATCH 03/29] fix: MPS_expec no longer overwrites the caller's matrix
 product state

---
 deepquantum/gates/qtensornetwork.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index ed96e33..f1e0c8e 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -201,6 +201,7 @@ def MPS_expec(MPS,wires:List[int],local_obserable:List[torch.Tensor]):
     wires也是一个list，表明每个局部力学量作用在哪个qubit上
     '''
     SV0 = MPS2StateVec(MPS).view(1,-1)
+    MPS = list(MPS) #不改变调用者的MPS
     
     for i,qbit in enumerate(wires):
         temp = MPS[qbit]
-- 
2.43.0


From fe088cb28e2e489ecd54b76efc27a7e7458ed8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:58 +0000
Subject: [PATCH 04/29] fix: MPS_inner_product handles bonds of dimension 1 and
 a single qubit

---
 deepquantum/gates/qtensornetwork.py | 42 +++--------------------------
 1 file changed, 4 insertions(+), 38 deletions(-)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index f1e0c8e..64a20b8 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -152,46 +152,12 @@ def MPS_inner_product(ketMPS,braMPS):
     '''
     MPS做内积完全没必要，不如直接恢复成state vector再做内积
     '''
-    #上限12个qubit
     N = len(ketMPS)
-    lst = []
+    #t的两个指标分别是bra、ket在当前位置的虚拟指标（bond），最左端bond dimension为1
+    t = torch.ones(1,1) + 0j
     for i in range(N):
-        t1 = ketMPS[i]
-        t2 = braMPS[i]
-        t1 = t1.permute(1,2,0)
-        t2 = t2.permute(1,2,0)
-        
-        for j in range(3):
-            t1 = t1.unsqueeze(2*j+1)
-            t2 = t2.unsqueeze(2*j)
-        qbit_tensor = (t2.conj() @ t1).squeeze()
-        lst.append(qbit_tensor)
-    
-    for i in range(len(lst)-1):
-        if i == 0:
-            t = lst[i]
-            
-        t_nxt = lst[i+1]
-        if i != len(lst) - 2:
-            t_nxt = t_nxt.permute(2,3,0,1)
-        
-        t = t.unsqueeze(-2).unsqueeze(-4) #1212
-        t_nxt = t_nxt.unsqueeze(-1).unsqueeze(-3) #442121
-        
-        temp = t @ t_nxt #442211
-        temp = temp.squeeze() #4422
-        if i != len(lst) - 2:
-            '''
-            einsum高阶张量求迹，TZH我的超人！！！
-            '''
-            t = torch.einsum('abii->ab',temp)
-            # for k in range(temp.shape[2]):
-            #     if k == 0:
-            #         t = temp[:,:,0,0]
-            #     else:
-            #         t += temp[:,:,k,k]
-        else:
-            t = torch.trace(temp)
+        t = torch.einsum('ab,iac,ibd->cd',[t,braMPS[i].conj(),ketMPS[i]])
+    t = torch.trace(t)
     #返回的是内积，不是内积的模平方
     return t
 
-- 
2.43.0


From 5d69f12d72f7f895593398128c44a1ef8a1e008a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:58 +0000
Subject: [PATCH 05/29] fix: partial_trace no longer reorders the caller's list
 of qubits

---
 deepquantum/gates/qmath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index 058dc0a..927f6b9 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -133,7 +133,7 @@ def partial_trace_old(rho,N,trace_lst):
     if len(trace_lst)!=0 and max(trace_lst) > N - 1:
         raise ValueError('element in trace_lst must be less than N-1')
     
-    trace_lst.sort()#必须从小到大排列
+    trace_lst = sorted(trace_lst)#必须从小到大排列
     rho = rho + 0j
     if len(trace_lst) == 0:
         return rho + 0j
@@ -163,7 +163,7 @@ def partial_trace(rho, N, trace_lst):
     if len(trace_lst) != 0 and max(trace_lst) > N - 1:
         raise ValueError('element in trace_lst must be less than N-1')
     
-    trace_lst.sort()#必须从小到大排列
+    trace_lst = sorted(trace_lst)#必须从小到大排列
     rho = rho + 0j
     if len(trace_lst) == 0:
         return rho + 0j
-- 
2.43.0


From 3976a8abd529d3e944d5bac44f796f229febaa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:58 +0000
Subject: [PATCH 06/29] fix: PrepareRho returns |psi><psi| for complex states
 too (missing conjugate)

---
 deepquantum/embeddings/qstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deepquantum/embeddings/qstate.py b/deepquantum/embeddings/qstate.py
index e1d90b9..2fbe998 100644
--- a/deepquantum/embeddings/qstate.py
+++ b/deepquantum/embeddings/qstate.py
@@ -11,7 +11,7 @@ def PrepareState(state):
 
 def PrepareRho(state):
     basic_rho = PrepareState(state).unsqueeze(0)
-    return basic_rho.T @ basic_rho  # out-produt
+    return basic_rho.T @ basic_rho.conj()  # out-produt
 
 
 
-- 
2.43.0


From b384fd5f841b707df0141dc230be2577fa06ad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:20 +0000
Subject: [PATCH 07/29] fix: a circuit's recorded parameters follow clear() and
 params_update

---
 deepquantum/gates/qcircuit.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 6396bba..3a0d629 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -25,11 +25,17 @@ class Circuit(object):
         self.nqubits = N  # 总QuBit的个数
         self.gate = []  # 顺序添加各类门
         #self._U = torch.tensor(1.0) + 0j     # 线路酉矩阵，初始为1
-        self.cir_params = {} #以字典的方式记录线路中所有门、层的参数
-        self.cir_num_params = 0 #记录线路中的参数总数
-        
-        
-        
+    
+    @property
+    def cir_params(self):
+        #以字典的方式记录线路中所有门、层的（当前）参数
+        return {idx:(g.params if g.num_params != 0 else None) for idx,g in enumerate(self.gate)}
+    
+    @property
+    def cir_num_params(self):
+        #记录线路中的参数总数
+        return sum(g.num_params for g in self.gate)
+    
     def state_init(self):
         '''
         返回线路的初始态，默认全为|0>态,避免内存浪费，需要时再调用
@@ -41,11 +47,6 @@ class Circuit(object):
 
     def add(self, gate):
         self.gate.append(gate)
-        if gate.num_params != 0:
-            self.cir_num_params += gate.num_params
-            self.cir_params[len(self.gate)-1] = gate.params
-        else:
-            self.cir_params[len(self.gate)-1] = None
 
     
     def U(self, left_to_right=True,cuda=False):
-- 
2.43.0


From d01670c5666f9bffdfb8ab10230a592d718f8ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:55 +0000
Subject: [PATCH 08/29] fix: gradients work at the current parameters, also
 integer or trainable ones, and restore them exactly

---
 deepquantum/gates/qcircuit.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 3a0d629..e9ab5c9 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -285,29 +285,30 @@ class parameter_shift(object):
                 #首先判断该gate是否有参数，没参数直接跳过
                 continue
                 
-            p = copy.deepcopy( self.cir.cir_params[idx] )
+            p0 = gate.params
+            p = p0.detach() + 0.0 #浮点数副本
             if len(p.shape) == 0:
                 #只有单个参数
                 self.cir.gate[idx].params_update(p + 0.5*torch.pi)
                 e1 = self.cir.cir_expectation(self.init_state, self.M)
                 self.cir.gate[idx].params_update(p - 0.5*torch.pi)
                 e2 = self.cir.cir_expectation(self.init_state, self.M)
-                self.cir.gate[idx].params_update(p) #最后别忘了把参数恢复
+                self.cir.gate[idx].params_update(p0) #最后别忘了把参数恢复
                 grad_lst.append( 0.5*(e1 - e2) )
             
             elif len(p.shape) == 1:
                 #参数是个一维张量
-                for i,each_p in enumerate(p):
-                    p[i] = p[i] + 0.5*torch.pi
+                for i,each_p in enumerate(p0.detach()):
+                    p[i] = each_p + 0.5*torch.pi
                     self.cir.gate[idx].params_update(p)
                     e1 = self.cir.cir_expectation(self.init_state, self.M)
                     
-                    p[i] = p[i] - 1.0*torch.pi
+                    p[i] = each_p - 0.5*torch.pi
                     self.cir.gate[idx].params_update(p)
                     e2 = self.cir.cir_expectation(self.init_state, self.M)
                     
-                    p[i] = p[i] + 0.5*torch.pi
-                    self.cir.gate[idx].params_update(p)
+                    p[i] = p0[i]
+                    self.cir.gate[idx].params_update(p0)
                     #最后别忘了把参数恢复
                     grad_lst.append( 0.5*(e1 - e2) )
             else:
@@ -384,7 +385,8 @@ class parameter_shift(object):
                 #首先判断该gate是否有参数，没参数直接跳过
                 continue
                 
-            p = copy.deepcopy( self.cir.cir_params[idx] )
+            p0 = gate.params
+            p = p0.detach() + 0.0 #浮点数副本
             if len(p.shape) == 0:
                 #只有单个参数
                 p = p - torch.pi
@@ -402,16 +404,15 @@ class parameter_shift(object):
                 temp = ( psi2.conj() @ psi1.view(-1,1) ).squeeze()
                 temp = -1.0*temp.real
                 
-                p = p + torch.pi
-                self.cir.gate[idx].params_update(p)
+                self.cir.gate[idx].params_update(p0) #恢复参数
                 
                 grad_lst.append(temp)
                 
             elif len(p.shape) == 1:
                 #参数是个一维张量
-                for i,each_p in enumerate(p):
+                for i,each_p in enumerate(p0.detach()):
                     
-                    p[i] = p[i] - torch.pi
+                    p[i] = each_p - torch.pi
                     self.cir.gate[idx].params_update(p)
                     #注意TN_operation是会改变输入(MPS)本身的，所以要用deepcopy
                     if idx == 0:
@@ -425,8 +426,8 @@ class parameter_shift(object):
                     temp = ( psi2.conj() @ psi1.view(-1,1) ).squeeze() 
                     temp = -1.0*temp.real
                     #本来取虚部变成取负实部，相当于修正了-1j
-                    p[i] = p[i] + torch.pi
-                    self.cir.gate[idx].params_update(p)
+                    p[i] = p0[i]
+                    self.cir.gate[idx].params_update(p0)
                     #最后别忘了把参数恢复
                     
                     grad_lst.append( temp )
-- 
2.43.0


From 8ff01ba91ad14504bd1c16a8efdfe2436effcd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:55 +0000
Subject: [PATCH 09/29] fix: parameter-shift gradient of cu3 uses the four-term
 rule its generator needs

---
 deepquantum/gates/qcircuit.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index e9ab5c9..4f09408 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -307,10 +307,23 @@ class parameter_shift(object):
                     self.cir.gate[idx].params_update(p)
                     e2 = self.cir.cir_expectation(self.init_state, self.M)
                     
+                    grad = 0.5*(e1 - e2)
+                    if gate.label == 'cu3':
+                        #受控旋转门生成元的本征值为0和±1/2，须用四项的parameter shift rule
+                        p[i] = each_p + 1.5*torch.pi
+                        self.cir.gate[idx].params_update(p)
+                        e3 = self.cir.cir_expectation(self.init_state, self.M)
+                        
+                        p[i] = each_p - 1.5*torch.pi
+                        self.cir.gate[idx].params_update(p)
+                        e4 = self.cir.cir_expectation(self.init_state, self.M)
+                        
+                        grad = ( (2**0.5+1)*(e1 - e2) - (2**0.5-1)*(e3 - e4) )/(4*2**0.5)
+                    
                     p[i] = p0[i]
                     self.cir.gate[idx].params_update(p0)
                     #最后别忘了把参数恢复
-                    grad_lst.append( 0.5*(e1 - e2) )
+                    grad_lst.append( grad )
             else:
                 raise ValueError('cal_params_grad: error about params shape')
                         
-- 
2.43.0


From fb8993da46d1d3ed64edb6778a874c09c195d331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:17 +0000
Subject: [PATCH 10/29] fix: saved-state gradient of u1, cphase and cu3 (not
 plain rotations)

---
 deepquantum/gates/qcircuit.py | 51 +++++++++++++++++------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 4f09408..ac62543 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -387,9 +387,23 @@ class parameter_shift(object):
                 
     
     
+    def _overlap(self,idx,p,init_MPS,save_dict):
+        #第idx个gate的参数取为p时，正向态与反向态内积的实部
+        gate = self.cir.gate[idx]
+        gate.params_update(p)
+        #注意TN_operation是会改变输入(MPS)本身的，所以要用deepcopy
+        if idx == 0:
+            MPS = copy.deepcopy( init_MPS )
+        else:
+            MPS = copy.deepcopy( save_dict[idx-1] )
+        psi1 = MPS2StateVec( gate.TN_operation( MPS ) )
+        psi2 = MPS2StateVec( save_dict[2*len(self.cir.gate)-idx-2] )
+        return ( psi2.conj() @ psi1.view(-1,1) ).squeeze().real
+    
+    
+    
     def cal_params_grad2(self,save_dict):
         grad_lst = []
-        num_gates = len(self.cir.gate)
         
         init_MPS = StateVec2MPS(self.init_state, self.cir.nqubits)
         for idx,gate in enumerate( self.cir.gate ):
@@ -402,20 +416,12 @@ class parameter_shift(object):
             p = p0.detach() + 0.0 #浮点数副本
             if len(p.shape) == 0:
                 #只有单个参数
-                p = p - torch.pi
-                self.cir.gate[idx].params_update(p)
-                
-                if idx == 0:
-                    MPS = copy.deepcopy( init_MPS )
-                    MPS = gate.TN_operation( MPS )
+                if gate.label in ('u1','cphase'):
+                    #相位门不是旋转门（生成元的本征值为0和1），导数为两次平移之差
+                    temp = self._overlap(idx, p + 0.5*torch.pi, init_MPS, save_dict) \
+                        - self._overlap(idx, p - 0.5*torch.pi, init_MPS, save_dict)
                 else:
-                    MPS = copy.deepcopy( save_dict[idx-1] )
-                    MPS = gate.TN_operation( MPS )
-                
-                psi1 = MPS2StateVec( MPS )
-                psi2 = MPS2StateVec( save_dict[2*num_gates-idx-2] )
-                temp = ( psi2.conj() @ psi1.view(-1,1) ).squeeze()
-                temp = -1.0*temp.real
+                    temp = -1.0*self._overlap(idx, p - torch.pi, init_MPS, save_dict)
                 
                 self.cir.gate[idx].params_update(p0) #恢复参数
                 
@@ -426,19 +432,12 @@ class parameter_shift(object):
                 for i,each_p in enumerate(p0.detach()):
                     
                     p[i] = each_p - torch.pi
-                    self.cir.gate[idx].params_update(p)
-                    #注意TN_operation是会改变输入(MPS)本身的，所以要用deepcopy
-                    if idx == 0:
-                        MPS = copy.deepcopy( init_MPS )
-                        MPS = gate.TN_operation( MPS )
-                    else:
-                        MPS = copy.deepcopy( save_dict[idx-1] )
-                        MPS = gate.TN_operation( MPS ) #后面需要-1j修正
-                    psi1 = MPS2StateVec( MPS )
-                    psi2 = MPS2StateVec( save_dict[2*num_gates-idx-2] )
-                    temp = ( psi2.conj() @ psi1.view(-1,1) ).squeeze() 
-                    temp = -1.0*temp.real
+                    temp = -1.0*self._overlap(idx, p, init_MPS, save_dict)
                     #本来取虚部变成取负实部，相当于修正了-1j
+                    if gate.label == 'cu3':
+                        #受控旋转门中不受参数影响的部分须抵消掉
+                        p[i] = each_p + torch.pi
+                        temp = 0.5*( temp + self._overlap(idx, p, init_MPS, save_dict) )
                     p[i] = p0[i]
                     self.cir.gate[idx].params_update(p0)
                     #最后别忘了把参数恢复
-- 
2.43.0


From 1ca987d72a6e754475e1be2abb489609f7d30e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:42 +0000
Subject: [PATCH 11/29] fix: keep the shifted parameter copy out of the
 autograd graph

---
 deepquantum/gates/qcircuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index ac62543..f03d76d 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -320,7 +320,7 @@ class parameter_shift(object):
                         
                         grad = ( (2**0.5+1)*(e1 - e2) - (2**0.5-1)*(e3 - e4) )/(4*2**0.5)
                     
-                    p[i] = p0[i]
+                    p[i] = each_p
                     self.cir.gate[idx].params_update(p0)
                     #最后别忘了把参数恢复
                     grad_lst.append( grad )
@@ -438,7 +438,7 @@ class parameter_shift(object):
                         #受控旋转门中不受参数影响的部分须抵消掉
                         p[i] = each_p + torch.pi
                         temp = 0.5*( temp + self._overlap(idx, p, init_MPS, save_dict) )
-                    p[i] = p0[i]
+                    p[i] = each_p
                     self.cir.gate[idx].params_update(p0)
                     #最后别忘了把参数恢复
                     
-- 
2.43.0


From df9c780453b73a7b3363cb191a90b0877d157862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:42 +0000
Subject: [PATCH 12/29] fix: u1, cphase, u3/cu3 inverses and measure keep the
 autograd graph

---
 deepquantum/gates/qmath.py     |  2 +-
 deepquantum/gates/qoperator.py | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index 927f6b9..31f0402 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -250,7 +250,7 @@ def measure(n_qubit, state, ith=None):
     M_lst = _Zmeasure(n_qubit, ith)
     for Mi in M_lst:
         measure_rst.append(expval(state, Mi, rho=rho))
-    return torch.tensor(measure_rst)
+    return torch.stack(measure_rst)
 
 if __name__ == '__main__':
     
diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 0b21fff..a719119 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -526,7 +526,7 @@ class u1(SingleGateOperation):
         self.params = theta
         
         exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
-        self.matrix = torch.tensor([[1,0],[0,exp_itheta]]) + 0j
+        self.matrix = torch.eye(2,2) + (exp_itheta-1)*torch.tensor([[0,0],[0,1]])
 
 
 
@@ -573,7 +573,7 @@ class u3(SingleGateOperation):
     
     def operation_dagger(self):
         theta, phi, lambd = self.params[0],self.params[1],self.params[2]
-        return u3([-theta,-lambd,-phi],self.nqubits,self.wires)
+        return u3(torch.stack([-theta,-lambd,-phi]),self.nqubits,self.wires)
     
     
     def info(self):
@@ -1434,7 +1434,7 @@ class cphase(Operation):
     def U_expand(self):
         if self.nqubits != -1 and self.wires != -1:
             exp_itheta = torch.cos(self.params) + 1j * torch.sin(self.params)
-            phase_gate = torch.tensor( [[1,0],[0,exp_itheta]] ) + 0j
+            phase_gate = torch.eye(2,2) + (exp_itheta-1)*torch.tensor([[0,0],[0,1]])
             control = self.wires[0]
             target = self.wires[1]
             return Operation.two_qubit_control_gate( phase_gate, self.nqubits, control, target )
@@ -1554,10 +1554,10 @@ class cphase(Operation):
         theta = theta + torch.tensor(0.0)
         self.params = theta
         exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
-        self.matrix = torch.tensor([[1,0,0,0],\
-                                    [0,1,0,0],\
-                                    [0,0,1,0],\
-                                    [0,0,0,exp_itheta]]) + 0j
+        self.matrix = torch.eye(4,4) + (exp_itheta-1)*torch.tensor([[0,0,0,0],\
+                                                                    [0,0,0,0],\
+                                                                    [0,0,0,0],\
+                                                                    [0,0,0,1]])
 
 
 
@@ -1701,7 +1701,7 @@ class cu3(Operation):
     
     def operation_dagger(self):
         theta, phi, lambd = self.params[0],self.params[1],self.params[2]
-        return cu3([-theta,-lambd,-phi],self.nqubits,self.wires)
+        return cu3(torch.stack([-theta,-lambd,-phi]),self.nqubits,self.wires)
     
     def info(self):
         #将门的信息整合后return，用来添加到circuit的gate_lst中
-- 
2.43.0


From 3f8fb472591640d85c6b2ed56847b54719cc7bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:54 +0000
Subject: [PATCH 13/29] fix: QuanConv2D visits every full window and nothing
 else

---
 deepquantum/nn/modules/quanv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deepquantum/nn/modules/quanv.py b/deepquantum/nn/modules/quanv.py
index f3a3014..1119d31 100644
--- a/deepquantum/nn/modules/quanv.py
+++ b/deepquantum/nn/modules/quanv.py
@@ -90,8 +90,8 @@ class QuanConv2D(nn.Module):
 
         out = torch.zeros((batch, out_channel, len_x_out, len_y_out))
         for batch_i in range(batch):
-            for j in range(0, len_x_in, self.stride):
-                for k in range(0, len_y_in, self.stride):
+            for j in range(0, len_x_out*self.stride, self.stride):
+                for k in range(0, len_y_out*self.stride, self.stride):
 
                     x = input[batch_i, 0, j:j+self.kernel_size, k:k+self.kernel_size].reshape(-1) #[batch,channel,x,y]
                     # print("x::", x, j, j+self.kernel_size, k, k+self.kernel_size)
-- 
2.43.0


From f2f6e8c9db66f3dd96a7eb8573f9b3edee06b79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:09 +0000
Subject: [PATCH 14/29] fix: qgate rxx/ryy/rzz act on qubit 0 when it is the
 second target

---
 deepquantum/gates/qgate.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/deepquantum/gates/qgate.py b/deepquantum/gates/qgate.py
index 2690710..ee07c53 100644
--- a/deepquantum/gates/qgate.py
+++ b/deepquantum/gates/qgate.py
@@ -263,8 +263,6 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(target_qubit02, int), \
             "target qubit is not integer"
-        if not target_qubit02:
-            target_qubit02 = target_qubit01 + 1
         assert target_qubit01 <= self.n_qubits
         assert target_qubit02 <= self.n_qubits
 
@@ -283,8 +281,6 @@ class Circuit(object):
         assert isinstance(target_qubit02, int), \
             "target qubit is not integer"
 
-        if not target_qubit02:
-            target_qubit02 = target_qubit01 + 1
         assert target_qubit01 <= self.n_qubits
         assert target_qubit02 <= self.n_qubits
         assert target_qubit01 != target_qubit02, \
@@ -304,8 +300,6 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(target_qubit02, int), \
             "target qubit is not integer"
-        if not target_qubit02:
-            target_qubit02 = target_qubit01 + 1
         assert target_qubit01 <= self.n_qubits
         assert target_qubit02 <= self.n_qubits
 
-- 
2.43.0


From 1ff9f50d6d25d961792f93718fbbbbf93a4a42ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:09 +0000
Subject: [PATCH 15/29] fix: qgate.Circuit logs every accepted gate and no
 refused one

---
 deepquantum/gates/qgate.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/deepquantum/gates/qgate.py b/deepquantum/gates/qgate.py
index ee07c53..69b3fdc 100644
--- a/deepquantum/gates/qgate.py
+++ b/deepquantum/gates/qgate.py
@@ -208,7 +208,8 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(control_qubit, int), \
             "control qubit is not integer"
-        assert control_qubit <= self.n_qubits
+        assert 0 <= control_qubit < self.n_qubits and control_qubit != target_qubit, \
+            "control qubit is not available"
         assert 0 <= target_qubit < self.n_qubits, \
             "target qubit is not available"
         self._add_gate('cnot', [control_qubit, target_qubit],None)
@@ -243,7 +244,8 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(control_qubit, int), \
             "control qubit is not integer"
-        assert control_qubit <= self.n_qubits
+        assert 0 <= control_qubit < self.n_qubits and control_qubit != target_qubit, \
+            "control qubit is not available"
         assert 0 <= target_qubit < self.n_qubits, \
             "target qubit is not available"
 
@@ -263,8 +265,12 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(target_qubit02, int), \
             "target qubit is not integer"
-        assert target_qubit01 <= self.n_qubits
-        assert target_qubit02 <= self.n_qubits
+        assert 0 <= target_qubit01 < self.n_qubits, \
+            "target qubit is not available"
+        assert 0 <= target_qubit02 < self.n_qubits, \
+            "target qubit is not available"
+        assert target_qubit01 != target_qubit02, \
+            "target qubit should not be the same"
 
         # self._add_gate('rxx', target_qubit01, phi)
         # self._add_gate('rxx', target_qubit02, phi)
@@ -281,8 +287,10 @@ class Circuit(object):
         assert isinstance(target_qubit02, int), \
             "target qubit is not integer"
 
-        assert target_qubit01 <= self.n_qubits
-        assert target_qubit02 <= self.n_qubits
+        assert 0 <= target_qubit01 < self.n_qubits, \
+            "target qubit is not available"
+        assert 0 <= target_qubit02 < self.n_qubits, \
+            "target qubit is not available"
         assert target_qubit01 != target_qubit02, \
             "target qubit should not be the same"
 
@@ -300,8 +308,12 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(target_qubit02, int), \
             "target qubit is not integer"
-        assert target_qubit01 <= self.n_qubits
-        assert target_qubit02 <= self.n_qubits
+        assert 0 <= target_qubit01 < self.n_qubits, \
+            "target qubit is not available"
+        assert 0 <= target_qubit02 < self.n_qubits, \
+            "target qubit is not available"
+        assert target_qubit01 != target_qubit02, \
+            "target qubit should not be the same"
 
         # self._add_gate('rzz', target_qubit01, phi)
         # self._add_gate('rzz', target_qubit02, phi)
@@ -314,6 +326,7 @@ class Circuit(object):
 
     def multi_control_cnot(self, control_lst, target):
         self._add_u(self.multi_control_gate(self._x_gate(), self.n_qubits, control_lst, target))
+        self._add_gate('multi_control_cnot', list(control_lst) + [target], None)
 
     def U(self):
         return self.gate_sequence_product()
-- 
2.43.0


From 63eab76dedf02e81db6d906ca36eb702dc9fe7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:35 +0000
Subject: [PATCH 16/29] fix: ring_of_cnot and its inverse evolve tensor
 networks on any wires, as supportTN declares

---
 deepquantum/layers/qlayers.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index 307f8bd..49f5cb9 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -686,9 +686,12 @@ class ring_of_cnot(TwoQbitGateLayer):
         '''
         只支持自上而下的cnot，即上方的qbit一定是control，下方的一定是target
         '''
-        if self.wires != list( range(self.nqubits) ):
-            raise ValueError('ring_of_cnot,TN_operation error')
         L = len(self.wires)
+        if self.wires != list( range(self.nqubits) ):
+            #任意的wires：逐个执行环上的cnot
+            for i in range(L if L > 2 else 1):
+                MPS = cnot(self.nqubits,[self.wires[i],self.wires[(i+1)%L]]).TN_operation(MPS)
+            return MPS
         for i in range(L-1):
             MPS = cnot(self.nqubits,[i,i+1]).TN_operation(MPS)
             # temp1 = MPS[self.wires[i]] #control bit
@@ -744,12 +747,10 @@ class ring_of_cnot(TwoQbitGateLayer):
         return MPS
     
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
-        if self.wires != list( range(self.nqubits) ):
-            raise ValueError('ring_of_cnot,TN_contract error')
         L = len(self.wires)
         
-        if self.nqubits == 2:
-            MPS = cnot( 2,[self.wires[0],self.wires[1]] ).TN_contract(MPS, batch_mod=batch_mod)
+        if L == 2:
+            MPS = cnot( self.nqubits,[self.wires[0],self.wires[1]] ).TN_contract(MPS, batch_mod=batch_mod)
             return MPS
         
         for i in range(L):
@@ -836,10 +837,12 @@ class ring_of_cnot_dagger(TwoQbitGateLayer):
     
     def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
         
-        if self.wires != list( range(self.nqubits) ):
-            raise ValueError('ring_of_cnot_dagger,TN_operation error')
-        
         L = len(self.wires)
+        if self.wires != list( range(self.nqubits) ):
+            #任意的wires：逆序执行环上的cnot
+            for i in range(L-1 if L > 2 else 0,-1,-1):
+                MPS = cnot(self.nqubits,[self.wires[i],self.wires[(i+1)%L]]).TN_operation(MPS)
+            return MPS
         
         if self.nqubits == 2:
             MPS = cnot(2,[0,1]).TN_operation(MPS)
@@ -860,12 +863,10 @@ class ring_of_cnot_dagger(TwoQbitGateLayer):
     
     
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
-        if self.wires != list( range(self.nqubits) ):
-            raise ValueError('ring_of_cnot_dagger,TN_contract error')
         L = len(self.wires)
         
-        if self.nqubits == 2:
-            MPS = cnot( 2,[self.wires[0],self.wires[1]] ).TN_contract(MPS, batch_mod=batch_mod)
+        if L == 2:
+            MPS = cnot( self.nqubits,[self.wires[0],self.wires[1]] ).TN_contract(MPS, batch_mod=batch_mod)
             return MPS
         
         for i in range(L-1,-1,-1):
-- 
2.43.0


From e24f30088a28d9a2ccc8e70e5ff88d317e843ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:39 +0000
Subject: [PATCH 17/29] fix: the dense layer builders in qlayer.py can be
 called again (they used instance methods as functions)

---
 deepquantum/layers/qlayer.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/deepquantum/layers/qlayer.py b/deepquantum/layers/qlayer.py
index a33136c..5b8aaee 100644
--- a/deepquantum/layers/qlayer.py
+++ b/deepquantum/layers/qlayer.py
@@ -8,7 +8,24 @@ Created on Tue Oct 26 10:00:55 2021
 import torch
 # import math
 # from qutorch.qgate import rx, ry, rz, multi_kron, cnot, cz, IsUnitary, Hadamard, rxx, ryy, rzz
-from deepquantum.gates import Circuit as cir
+from deepquantum.gates import qoperator
+from deepquantum.gates import qmath
+
+class cir(object):
+    '''
+    本文件所用的门，均直接返回矩阵
+    '''
+    multi_kron = staticmethod( lambda lst: qmath.multi_kron(lst) + 0j )
+    Hadamard = staticmethod( lambda: qoperator.Hadamard().matrix )
+    rx = staticmethod( lambda theta: qoperator.rx(theta).matrix )
+    ry = staticmethod( lambda theta: qoperator.ry(theta).matrix )
+    rz = staticmethod( lambda theta: qoperator.rz(theta).matrix )
+    rxx = staticmethod( lambda theta: qoperator.rxx(theta).matrix )
+    ryy = staticmethod( lambda theta: qoperator.ryy(theta).matrix )
+    rzz = staticmethod( lambda theta: qoperator.rzz(theta).matrix )
+    cnot = staticmethod( lambda N,control,target: qoperator.cnot(N,[control,target]).U_expand() )
+    cz = staticmethod( lambda N,control,target: qoperator.cz(N,[control,target]).U_expand() )
+
 
 def XYZLayer(N, parameter_lst):
     if N < 1:
-- 
2.43.0


From be4da7cbe142037a46632210b5e25ba75fa3fc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:43 +0000
Subject: [PATCH 18/29] fix: operations refuse repeated, negative, non-existing
 or miscounted wires on every engine

---
 deepquantum/embeddings/qembedding.py |  2 +-
 deepquantum/gates/qoperator.py       | 59 ++++++++++++++++++----------
 deepquantum/layers/qlayers.py        | 24 +++++------
 3 files changed, 52 insertions(+), 33 deletions(-)

diff --git a/deepquantum/embeddings/qembedding.py b/deepquantum/embeddings/qembedding.py
index 6bbc076..ccf9627 100644
--- a/deepquantum/embeddings/qembedding.py
+++ b/deepquantum/embeddings/qembedding.py
@@ -69,7 +69,7 @@ class PauliEncoding(SingleGateLayer):
         self.nqubits = N
         self.input_lst = input_lst
         self.pauli = pauli
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         
         # self.state0 = torch.zeros(2**self.nqubits)
         # self.state0[0] = 1
diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index a719119..11dbab0 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -7,6 +7,7 @@ Created on Fri Nov  5 14:43:13 2021
 import torch
 from deepquantum.gates.qmath import  IsUnitary, IsHermitian, multi_kron
 from deepquantum.gates.qtensornetwork import TensorDecompAfterTwoQbitGate, TensorDecompAfterThreeQbitGate
+from collections.abc import Iterable
 from typing import List
 import copy
 
@@ -25,6 +26,21 @@ class Operator(object):
         lst1[index] = gate
         return multi_kron(lst1) + 0j
     
+    def check_wires(self, N, wires):
+        '''
+        检查wires的合法性：数目正确，且为0~N-1之间互不相同的索引号
+        '''
+        if N == -1 or wires == -1:
+            return wires
+        lst = list(wires) if isinstance(wires, Iterable) else [wires]
+        if len(lst) != getattr(self, 'num_wires', len(lst)):
+            raise ValueError("number of wires not match")
+        if len(set(lst)) != len(lst):
+            raise ValueError("wires must be different from each other")
+        if len(lst) != 0 and (min(lst) < 0 or max(lst) > N - 1):
+            raise ValueError("wires must between 0~N-1")
+        return wires
+    
     pass
 
 class Operation(Operator):
@@ -79,6 +95,9 @@ class Operation(Operator):
             if each == target:
                 raise ValueError("control cannot be equal to target")
         
+        if len(set(control_lst)) != len(control_lst):
+            raise ValueError("controls must be different from each other")
+        
         U = U + 0j
         one_one = torch.tensor( [[0,0],[0,1]] ) + 0j
         
@@ -108,7 +127,7 @@ class SingleGateOperation(Operation):
         self.num_wires = 1               
         
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         self.matrix = torch.eye(2)+0j
         self.supportTN = True
     
@@ -185,7 +204,7 @@ class Hadamard(SingleGateOperation):
         self.self_inverse = True
         
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         self.matrix = torch.sqrt( torch.tensor(0.5) ) * torch.tensor([[1,1],[1,-1]]) + 0j
         self.supportTN = True
         self.diagonal = False
@@ -224,7 +243,7 @@ class PauliX(SingleGateOperation):
         self.self_inverse = True
         
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         self.matrix = torch.tensor([[0,1],[1,0]]) + 0j
         self.supportTN = True
         self.diagonal = False
@@ -262,7 +281,7 @@ class PauliY(SingleGateOperation):
         self.self_inverse = True
         
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         self.matrix = torch.tensor([[0j,-1j],[1j,0j]])
         self.supportTN = True
         self.diagonal = False
@@ -301,7 +320,7 @@ class PauliZ(SingleGateOperation):
         self.self_inverse = True
         
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         self.matrix = torch.tensor([[1,0],[0,-1]]) + 0j
         self.supportTN = True
         self.diagonal = True
@@ -343,7 +362,7 @@ class rx(SingleGateOperation):
         
         theta = theta + torch.tensor(0.0)
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         self.params = theta
         self.matrix = torch.cos(theta/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(theta/2.0)*PauliX().matrix + 0j
@@ -394,7 +413,7 @@ class ry(SingleGateOperation):
         
         theta = theta + torch.tensor(0.0)
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         self.params = theta
         self.matrix = torch.cos(theta/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(theta/2.0)*PauliY().matrix + 0j
@@ -444,7 +463,7 @@ class rz(SingleGateOperation):
         
         theta = theta + torch.tensor(0.0)
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         self.params = theta
         self.matrix = torch.cos(theta/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(theta/2.0)*PauliZ().matrix + 0j
@@ -490,7 +509,7 @@ class u1(SingleGateOperation):
         self.self_inverse = False
         
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         theta = theta + torch.tensor(0.0)
         self.params = theta
         
@@ -548,7 +567,7 @@ class u3(SingleGateOperation):
         if type(theta_lst) == type([1]):
             theta_lst = torch.tensor(theta_lst)
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         self.params = theta_lst
         
         theta = theta_lst[0]
@@ -616,7 +635,7 @@ class rxx(Operation):
     
         theta = theta + torch.tensor(0.0)
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         self.params = theta
         self.matrix = torch.cos(theta/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(theta/2.0)*torch.kron(PauliX().matrix,PauliX().matrix) + 0j
@@ -773,7 +792,7 @@ class ryy(Operation):
         
         theta = theta + torch.tensor(0.0)
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         self.params = theta
         self.matrix = torch.cos(theta/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(theta/2.0)*torch.kron(PauliY().matrix,PauliY().matrix) + 0j
@@ -911,7 +930,7 @@ class rzz(Operation):
         
         theta = theta + torch.tensor(0.0)
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         self.params = theta
         self.matrix = torch.cos(theta/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(theta/2.0)*torch.kron(PauliZ().matrix,PauliZ().matrix) + 0j
@@ -1046,7 +1065,7 @@ class cnot(Operation):
         self.self_inverse = True
         
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         self.matrix = torch.tensor([[1,0,0,0],\
                                    [0,1,0,0],\
                                    [0,0,0,1],\
@@ -1265,7 +1284,7 @@ class cz(Operation):
         self.self_inverse = True
         
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         self.matrix = torch.tensor([[1,0,0,0],\
                                    [0,1,0,0],\
                                    [0,0,1,0],\
@@ -1414,7 +1433,7 @@ class cphase(Operation):
         
         theta = theta + torch.tensor(0.0)
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         self.params = theta
         
         exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
@@ -1571,7 +1590,7 @@ class cu3(Operation):
         self.self_inverse = False
         
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         
         if type(theta_lst) == type([1]):
             theta_lst = torch.tensor(theta_lst)
@@ -1748,7 +1767,7 @@ class SWAP(Operation):
         self.self_inverse = True
         
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         self.matrix = torch.tensor([[1,0,0,0],\
                                    [0,0,1,0],\
                                    [0,1,0,0],\
@@ -1917,7 +1936,7 @@ class toffoli(Operation):
         self.self_inverse = True
         
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         if wires != -1:
             if len(wires) != 3:
                 raise ValueError("toffoli gate must be applied on 3 qubits")
@@ -2164,7 +2183,7 @@ class multi_control_cnot(Operation):
         self.num_wires = len(wires)
         
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         self.control_lst =  list(wires[0:len(wires)-1]) 
         self.target_lst = [ wires[-1] ]
         self.supportTN = False
diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index 49f5cb9..bc99bfd 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -17,7 +17,7 @@ import copy
 所有layer必须有label标签，nqubits比特数，wires涉及哪几个比特，num_params参数数目，是否支持张量网络
 self.label = "HadamardLayer"
 self.nqubits = N
-self.wires = wires
+self.wires = self.check_wires(N, wires)
 self.num_params = 0
 self.supportTN = True
 '''
@@ -121,7 +121,7 @@ class XYZLayer(SingleGateLayer):
         self.label = "XYZLayer"
         
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
             params_lst = torch.tensor(params_lst)
@@ -194,7 +194,7 @@ class ZYXLayer(SingleGateLayer):
         self.label = "ZYXLayer"
         
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
             params_lst = torch.tensor(params_lst)
@@ -270,7 +270,7 @@ class YZYLayer(SingleGateLayer):
         self.label = "YZYLayer"
         
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
             params_lst = torch.tensor(params_lst)
@@ -381,7 +381,7 @@ class XZXLayer(SingleGateLayer):
         self.label = "XZXLayer"
         
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
             params_lst = torch.tensor(params_lst)
@@ -460,7 +460,7 @@ class XZLayer(SingleGateLayer):
         self.label = "XZLayer"
         
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
             params_lst = torch.tensor(params_lst)
@@ -532,7 +532,7 @@ class ZXLayer(SingleGateLayer):
         self.label = "ZXLayer"
         
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
             params_lst = torch.tensor(params_lst)
@@ -599,7 +599,7 @@ class HLayer(SingleGateLayer):
         self.label = "HadamardLayer"
         
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         self.num_params = 0
         self.supportTN = True
      
@@ -648,7 +648,7 @@ class ring_of_cnot(TwoQbitGateLayer):
         self.label = "ring_of_cnot_Layer"
         
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         self.num_params = 0
         self.supportTN = True
     
@@ -802,7 +802,7 @@ class ring_of_cnot_dagger(TwoQbitGateLayer):
         self.label = "ring_of_cnot_dagger"
         
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         self.num_params = 0
         self.supportTN = True
     
@@ -908,7 +908,7 @@ class ring_of_cnot2(TwoQbitGateLayer):
         self.label = "ring_of_cnot2_Layer"
         
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         self.num_params = 0
         self.supportTN = False
     
@@ -985,7 +985,7 @@ class BasicEntangleLayer(TwoQbitGateLayer):
         self.label = "BasicEntangleLayer"
         
         self.nqubits = N
-        self.wires = wires
+        self.wires = self.check_wires(N, wires)
         self.num_params = len(params_lst)
         self.params = params_lst
         self.repeat = repeat
-- 
2.43.0


From 8e62312176d8b94c54c53ccec7daaf26b820a56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:59 +0000
Subject: [PATCH 19/29] fix: params_update takes the containers and counts the
 constructors take; layer inverses keep the autograd graph

---
 deepquantum/gates/qoperator.py | 48 ++++++++++++++++++----------
 deepquantum/layers/qlayers.py  | 57 ++++++++++++++++++++++++++--------
 2 files changed, 76 insertions(+), 29 deletions(-)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 11dbab0..48026fb 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -26,6 +26,14 @@ class Operator(object):
         lst1[index] = gate
         return multi_kron(lst1) + 0j
     
+    @staticmethod
+    def one_param(theta):
+        #单参数门的参数：数字或只含1个元素的张量，统一转为浮点张量
+        theta = theta + torch.tensor(0.0)
+        if theta.numel() != 1:
+            raise ValueError("number of parameters not match")
+        return theta
+    
     def check_wires(self, N, wires):
         '''
         检查wires的合法性：数目正确，且为0~N-1之间互不相同的索引号
@@ -360,7 +368,7 @@ class rx(SingleGateOperation):
         self.self_inverse = False
         
         
-        theta = theta + torch.tensor(0.0)
+        theta = self.one_param(theta)
         self.nqubits = N
         self.wires = self.check_wires(N, wires)
         self.params = theta
@@ -388,7 +396,7 @@ class rx(SingleGateOperation):
         return info
     
     def params_update(self,params):
-        self.params = params
+        self.params = self.one_param(params)
         self.matrix = torch.cos(self.params/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(self.params/2.0)*PauliX().matrix + 0j
 
@@ -411,7 +419,7 @@ class ry(SingleGateOperation):
         self.num_wires = 1            
         self.self_inverse = False
         
-        theta = theta + torch.tensor(0.0)
+        theta = self.one_param(theta)
         self.nqubits = N
         self.wires = self.check_wires(N, wires)
         self.params = theta
@@ -438,7 +446,7 @@ class ry(SingleGateOperation):
         return info
     
     def params_update(self,params):
-        self.params = params
+        self.params = self.one_param(params)
         self.matrix = torch.cos(self.params/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(self.params/2.0)*PauliY().matrix + 0j
 
@@ -461,7 +469,7 @@ class rz(SingleGateOperation):
         self.num_wires = 1
         self.self_inverse = False
         
-        theta = theta + torch.tensor(0.0)
+        theta = self.one_param(theta)
         self.nqubits = N
         self.wires = self.check_wires(N, wires)
         self.params = theta
@@ -487,7 +495,7 @@ class rz(SingleGateOperation):
         return info
     
     def params_update(self,params):
-        self.params = params
+        self.params = self.one_param(params)
         self.matrix = torch.cos(self.params/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(self.params/2.0)*PauliZ().matrix + 0j
 
@@ -510,7 +518,7 @@ class u1(SingleGateOperation):
         
         self.nqubits = N
         self.wires = self.check_wires(N, wires)
-        theta = theta + torch.tensor(0.0)
+        theta = self.one_param(theta)
         self.params = theta
         
         # exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
@@ -541,7 +549,7 @@ class u1(SingleGateOperation):
         return info
     
     def params_update(self,theta):
-        theta = theta + torch.tensor(0.0)
+        theta = self.one_param(theta)
         self.params = theta
         
         exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
@@ -566,6 +574,8 @@ class u3(SingleGateOperation):
         
         if type(theta_lst) == type([1]):
             theta_lst = torch.tensor(theta_lst)
+        if len(theta_lst) != 3:
+            raise ValueError("number of parameters not match")
         self.nqubits = N
         self.wires = self.check_wires(N, wires)
         self.params = theta_lst
@@ -604,6 +614,8 @@ class u3(SingleGateOperation):
         
         if type(theta_lst) == type([1]):
             theta_lst = torch.tensor(theta_lst)
+        if len(theta_lst) != 3:
+            raise ValueError("number of parameters not match")
         self.params = theta_lst
         
         theta = theta_lst[0]
@@ -633,7 +645,7 @@ class rxx(Operation):
         self.num_wires = 2           
         self.self_inverse = False
     
-        theta = theta + torch.tensor(0.0)
+        theta = self.one_param(theta)
         self.nqubits = N
         self.wires = self.check_wires(N, wires)
         self.params = theta
@@ -763,7 +775,7 @@ class rxx(Operation):
         return info
     
     def params_update(self,params):
-        self.params = params
+        self.params = self.one_param(params)
         self.matrix = torch.cos(self.params/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(self.params/2.0)*torch.kron(PauliX().matrix,PauliX().matrix) + 0j
 
@@ -790,7 +802,7 @@ class ryy(Operation):
         self.num_wires = 2           
         self.self_inverse = False
         
-        theta = theta + torch.tensor(0.0)
+        theta = self.one_param(theta)
         self.nqubits = N
         self.wires = self.check_wires(N, wires)
         self.params = theta
@@ -901,7 +913,7 @@ class ryy(Operation):
         return info
     
     def params_update(self,params):
-        self.params = params
+        self.params = self.one_param(params)
         self.matrix = torch.cos(self.params/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(self.params/2.0)*torch.kron(PauliY().matrix,PauliY().matrix) + 0j
 
@@ -928,7 +940,7 @@ class rzz(Operation):
         self.num_wires = 2           
         self.self_inverse = False
         
-        theta = theta + torch.tensor(0.0)
+        theta = self.one_param(theta)
         self.nqubits = N
         self.wires = self.check_wires(N, wires)
         self.params = theta
@@ -1037,7 +1049,7 @@ class rzz(Operation):
         return info
     
     def params_update(self,params):
-        self.params = params
+        self.params = self.one_param(params)
         self.matrix = torch.cos(self.params/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(self.params/2.0)*torch.kron(PauliZ().matrix,PauliZ().matrix) + 0j
 
@@ -1431,7 +1443,7 @@ class cphase(Operation):
         self.num_wires = 2          
         self.self_inverse = False
         
-        theta = theta + torch.tensor(0.0)
+        theta = self.one_param(theta)
         self.nqubits = N
         self.wires = self.check_wires(N, wires)
         self.params = theta
@@ -1570,7 +1582,7 @@ class cphase(Operation):
         return info
     
     def params_update(self,theta):
-        theta = theta + torch.tensor(0.0)
+        theta = self.one_param(theta)
         self.params = theta
         exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
         self.matrix = torch.eye(4,4) + (exp_itheta-1)*torch.tensor([[0,0,0,0],\
@@ -1594,6 +1606,8 @@ class cu3(Operation):
         
         if type(theta_lst) == type([1]):
             theta_lst = torch.tensor(theta_lst)
+        if len(theta_lst) != 3:
+            raise ValueError("number of parameters not match")
         self.params = theta_lst
         
         theta = theta_lst[0]
@@ -1730,6 +1744,8 @@ class cu3(Operation):
     def params_update(self,theta_lst):
         if type(theta_lst) == type([1]):
             theta_lst = torch.tensor(theta_lst)
+        if len(theta_lst) != 3:
+            raise ValueError("number of parameters not match")
         self.params = theta_lst
         
         theta = theta_lst[0]
diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index bc99bfd..ef40378 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -169,7 +169,7 @@ class XYZLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return ZYXLayer(self.nqubits,self.wires,params_tensor)
@@ -179,8 +179,12 @@ class XYZLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if len(params_lst) != self.num_params:
+            raise ValueError(self.label+": number of parameters not match")
+        #如果是列表，先转成tensor
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.params = params_lst
-        self.num_params = len(params_lst)
     
 
 class ZYXLayer(SingleGateLayer):
@@ -242,7 +246,7 @@ class ZYXLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return XYZLayer(self.nqubits,self.wires,params_tensor)
@@ -252,8 +256,12 @@ class ZYXLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if len(params_lst) != self.num_params:
+            raise ValueError(self.label+": number of parameters not match")
+        #如果是列表，先转成tensor
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.params = params_lst
-        self.num_params = len(params_lst)
 
 
 
@@ -348,7 +356,7 @@ class YZYLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return YZYLayer(self.nqubits,self.wires,params_tensor)
@@ -358,8 +366,12 @@ class YZYLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if len(params_lst) != self.num_params:
+            raise ValueError(self.label+": number of parameters not match")
+        #如果是列表，先转成tensor
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.params = params_lst
-        self.num_params = len(params_lst)
 
 
 
@@ -428,7 +440,7 @@ class XZXLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return XZXLayer(self.nqubits,self.wires,params_tensor)
@@ -438,8 +450,12 @@ class XZXLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if len(params_lst) != self.num_params:
+            raise ValueError(self.label+": number of parameters not match")
+        #如果是列表，先转成tensor
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.params = params_lst
-        self.num_params = len(params_lst)
 
 
 
@@ -497,7 +513,7 @@ class XZLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[2*i+0] )
+            temp = params_tensor[2*i+0].clone()
             params_tensor[2*i+0] = params_tensor[2*i+1]
             params_tensor[2*i+1] = temp
         return ZXLayer(self.nqubits,self.wires,params_tensor)
@@ -507,8 +523,12 @@ class XZLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if len(params_lst) != self.num_params:
+            raise ValueError(self.label+": number of parameters not match")
+        #如果是列表，先转成tensor
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.params = params_lst
-        self.num_params = len(params_lst)
 
 
 
@@ -571,7 +591,7 @@ class ZXLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[2*i+0] )
+            temp = params_tensor[2*i+0].clone()
             params_tensor[2*i+0] = params_tensor[2*i+1]
             params_tensor[2*i+1] = temp
         return XZLayer(self.nqubits,self.wires,params_tensor)
@@ -581,8 +601,12 @@ class ZXLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if len(params_lst) != self.num_params:
+            raise ValueError(self.label+": number of parameters not match")
+        #如果是列表，先转成tensor
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.params = params_lst
-        self.num_params = len(params_lst)
 
 
 
@@ -986,6 +1010,9 @@ class BasicEntangleLayer(TwoQbitGateLayer):
         
         self.nqubits = N
         self.wires = self.check_wires(N, wires)
+        #如果是列表，先转成tensor
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.num_params = len(params_lst)
         self.params = params_lst
         self.repeat = repeat
@@ -1013,7 +1040,11 @@ class BasicEntangleLayer(TwoQbitGateLayer):
         return info
     
     def params_update(self,params_lst):
-        self.num_params = len(params_lst)
+        if len(params_lst) != self.num_params:
+            raise ValueError(self.label+": number of parameters not match")
+        #如果是列表，先转成tensor
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.params = params_lst
         self.part1_lst, self.part2_lst = [], []
         L = 3*len(self.wires)
-- 
2.43.0


From c2eedd04aaaaa628c604428d2a180389777a2a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 20/29] fix: singular value decomposition no longer fails on
 numerical noise left in matrix product states

---
 deepquantum/gates/qtensornetwork.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index 64a20b8..2a789bd 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -12,6 +12,15 @@ import time
 
 from typing import List
 
+def _svd(tensor:torch.Tensor):
+    '''
+    张量中可能残留极小的计算噪声（例如次正规数），LAPACK遇到它们可能返回nan或报错，故先把噪声置零；
+    小于1e-8的奇异值本来就会被舍弃，置零1e-16以下的元素不影响结果
+    '''
+    noise = torch.view_as_real(tensor.detach() + 0j)
+    noise = torch.where(torch.abs(noise) < 1e-16, noise, torch.zeros_like(noise))
+    return torch.svd(tensor - torch.view_as_complex(noise))
+
 def StateVec2MPS(psi:torch.Tensor, N:int, d:int=2)->List[torch.Tensor]:
     #t1 = time.time()
     #输入合法性检测：输入的态矢必须是1行2^N列的张量
@@ -32,7 +41,7 @@ def StateVec2MPS(psi:torch.Tensor, N:int, d:int=2)->List[torch.Tensor]:
             rst_lst.append(c_tensor.view(2,-1,c_tensor.shape[1]))
             continue
         
-        U,S,V = torch.svd( c_tensor )
+        U,S,V = _svd( c_tensor )
         V_d = V.permute(1,0).conj()
         D = len( (S[torch.abs(S)>1e-8]).view(-1) ) #D：bond dimension
         #print(D)
@@ -95,7 +104,7 @@ def TensorDecompAfterTwoQbitGate(tensor:torch.Tensor):
     block2 = torch.cat((tensor[1,0],tensor[1,1]),dim=1)
     tensor = torch.cat((block1,block2),dim=0)
     
-    U,S,V = torch.svd( tensor )
+    U,S,V = _svd( tensor )
     V_d = V.permute(1,0).conj()
     D = len( (S[torch.abs(S)>1e-8]).view(-1) ) #D：bond dimension
     #print('D: ',D)
@@ -134,7 +143,7 @@ def TensorDecompAfterThreeQbitGate(tensor:torch.Tensor):
             blks = torch.chunk(tensor, chunks=2, dim=1)
             tensor = torch.cat((blks[0], blks[1]), dim=0)
         if i != 2:
-            U,S,V = torch.svd( tensor )
+            U,S,V = _svd( tensor )
             V_d = V.permute(1,0).conj()
             D = len( (S[torch.abs(S)>1e-8]).view(-1) ) #D：bond dimension
             S = torch.diag(S) + 0j
@@ -223,7 +232,7 @@ def Rho2MPS(Rho:torch.Tensor,N:int)->List[torch.Tensor]:
         NOTE:已知矩阵A做SVD分解得到U、S、V，若对10*A做SVD分解，将得到U,10*S,V
         所以，Rho的MPS和10*Rho的MPS是完全相同的
         '''
-        U,S,V = torch.svd(r_tensor)
+        U,S,V = _svd(r_tensor)
         #print(torch.max(S))
         V = V.permute(1,0).conj() #dag(V)
         D = len( (S[torch.abs(S)>1e-8]).view(-1) ) #D：bond dimension
-- 
2.43.0


From 2c76078bea748142cbe00cfb97c0c7f1f29a1fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 21/29] fix: saved-state gradient of u1 and cphase also with a
 one-element parameter vector

---
 deepquantum/gates/qcircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index f03d76d..10236e2 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -414,7 +414,7 @@ class parameter_shift(object):
                 
             p0 = gate.params
             p = p0.detach() + 0.0 #浮点数副本
-            if len(p.shape) == 0:
+            if p.numel() == 1:
                 #只有单个参数
                 if gate.label in ('u1','cphase'):
                     #相位门不是旋转门（生成元的本征值为0和1），导数为两次平移之差
-- 
2.43.0


From 7365c1b030e056ae3f717b4dfeba018da60babb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:13 +0000
Subject: [PATCH 22/29] fix: gram_encoding of a complex vector of norm 1 is a
 density matrix

---
 deepquantum/embeddings/qembedding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deepquantum/embeddings/qembedding.py b/deepquantum/embeddings/qembedding.py
index ccf9627..a391e03 100644
--- a/deepquantum/embeddings/qembedding.py
+++ b/deepquantum/embeddings/qembedding.py
@@ -47,6 +47,7 @@ def gram_encoding(x):
     perform L2 regularization on x, x为complex
     可以将n’×n’的Gram半正定矩阵转换为n’×n’的量子态密度矩阵
     """
+    gram = x.T @ x.conj()
     x = x.T@x 
     
     with torch.no_grad():
@@ -58,7 +59,7 @@ def gram_encoding(x):
             xdsn2 = xdsn @ dag(xdsn)                    #dag() 自定义函数
             xdsn2 = xdsn2.type(dtype=torch.complex64)
         else:
-            xdsn2 = x.type(dtype=torch.complex64)
+            xdsn2 = gram.type(dtype=torch.complex64)
     return xdsn2
 
 class PauliEncoding(SingleGateLayer):
-- 
2.43.0


From 43cb189322c2189b03ecd8c9b83ad1bad89ca4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:10 +0000
Subject: [PATCH 23/29] fix: partial_trace silently traced other qubits when
 one was listed twice

---
 deepquantum/gates/qmath.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index 31f0402..c1cce57 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -132,6 +132,8 @@ def partial_trace_old(rho,N,trace_lst):
         raise ValueError('rho dim error')
     if len(trace_lst)!=0 and max(trace_lst) > N - 1:
         raise ValueError('element in trace_lst must be less than N-1')
+    if len(set(trace_lst)) != len(trace_lst) or any(i < 0 for i in trace_lst):
+        raise ValueError('elements in trace_lst must be different and not negative')
     
     trace_lst = sorted(trace_lst)#必须从小到大排列
     rho = rho + 0j
@@ -162,6 +164,8 @@ def partial_trace(rho, N, trace_lst):
         raise ValueError('rho dim error')
     if len(trace_lst) != 0 and max(trace_lst) > N - 1:
         raise ValueError('element in trace_lst must be less than N-1')
+    if len(set(trace_lst)) != len(trace_lst) or any(i < 0 for i in trace_lst):
+        raise ValueError('elements in trace_lst must be different and not negative')
     
     trace_lst = sorted(trace_lst)#必须从小到大排列
     rho = rho + 0j
-- 
2.43.0


From 27f80d33f6560254568286ef4fee5f95a96a5f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:10 +0000
Subject: [PATCH 24/29] fix: MPS_inner_product ignored the extra qubits of a
 longer bra

---
 deepquantum/gates/qtensornetwork.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index 2a789bd..62a9ad1 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -162,6 +162,8 @@ def MPS_inner_product(ketMPS,braMPS):
     MPS做内积完全没必要，不如直接恢复成state vector再做内积
     '''
     N = len(ketMPS)
+    if len(braMPS) != N:
+        raise ValueError('MPS_inner_product: ket and bra must have the same number of qubits')
     #t的两个指标分别是bra、ket在当前位置的虚拟指标（bond），最左端bond dimension为1
     t = torch.ones(1,1) + 0j
     for i in range(N):
-- 
2.43.0


From 5800762f263341843a309d533a003567238a70ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:10 +0000
Subject: [PATCH 25/29] fix: MPS_expec dropped observables without a wire and
 took negative wires

---
 deepquantum/gates/qtensornetwork.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index 62a9ad1..c6b4228 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -177,6 +177,10 @@ def MPS_expec(MPS,wires:List[int],local_obserable:List[torch.Tensor]):
     local_obserable是一个包含局部力学量(针对单个qubit的力学量，一个2X2矩阵)的list
     wires也是一个list，表明每个局部力学量作用在哪个qubit上
     '''
+    if len(wires) != len(local_obserable):
+        raise ValueError('MPS_expec: wires and local observables must have the same length')
+    if any(i < 0 or i > len(MPS) - 1 for i in wires):
+        raise ValueError('MPS_expec: wires must be between 0 and N-1')
     SV0 = MPS2StateVec(MPS).view(1,-1)
     MPS = list(MPS) #不改变调用者的MPS
     
-- 
2.43.0


From ead67567a1f6056ca9153dd7cbcaf1f43a7d3365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:35 +0000
Subject: [PATCH 26/29] fix: rectangular matrices passed for density matrices
 in partial_trace and expval

---
 deepquantum/gates/qmath.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index c1cce57..dc32ffa 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -128,7 +128,7 @@ def partial_trace_old(rho,N,trace_lst):
     #输入合法性检测
     if abs(torch.trace(rho) - 1) > 1e-4:
         raise ValueError("trace of density matrix must be 1")
-    if rho.shape[0] != 2**N:
+    if rho.shape[0] != 2**N or rho.shape[1] != 2**N:
         raise ValueError('rho dim error')
     if len(trace_lst)!=0 and max(trace_lst) > N - 1:
         raise ValueError('element in trace_lst must be less than N-1')
@@ -160,7 +160,7 @@ def partial_trace(rho, N, trace_lst):
     #输入合法性检测
     if abs(torch.trace(rho) - 1) > 1e-4:
         raise ValueError("trace of density matrix must be 1")
-    if rho.shape[0] != 2**N:
+    if rho.shape[0] != 2**N or rho.shape[1] != 2**N:
         raise ValueError('rho dim error')
     if len(trace_lst) != 0 and max(trace_lst) > N - 1:
         raise ValueError('element in trace_lst must be less than N-1')
@@ -238,6 +238,8 @@ def expval(state, M, rho=False):
             return rst
                   
     else:   #state是1个密度矩阵，此时不支持batch
+        if state.shape[0] != state.shape[1]:
+            raise ValueError("density matrix must be square")
         if torch.abs(torch.trace(state) - 1) > 1e-4:
             raise ValueError("trace of density matrix must be 1")
         return torch.trace(state @ M).real
-- 
2.43.0


From 793890c3c6fa61295ad4b8db1dd2b0d8953bac1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:21 +0000
Subject: [PATCH 27/29] fix: a gradient computation that fails or is
 interrupted leaves the circuit's parameters alone

---
 deepquantum/gates/qcircuit.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 10236e2..ac22b7c 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -277,7 +277,17 @@ class parameter_shift(object):
     
     
     
+    def _on_copy(self):
+        #返回线路副本上的parameter_shift：平移参数只改动副本中的门，即使中途出错，原线路也保持不变
+        shifted = copy.copy(self)
+        shifted.cir = copy.copy(self.cir)
+        shifted.cir.gate = [copy.copy(gate) for gate in self.cir.gate]
+        return shifted
+    
+    
+    
     def cal_params_grad(self):
+        self = self._on_copy()
         grad_lst = []
         for idx,gate in enumerate( self.cir.gate ):
             #遍历线路中的每个gate、layer
@@ -403,6 +413,7 @@ class parameter_shift(object):
     
     
     def cal_params_grad2(self,save_dict):
+        self = self._on_copy()
         grad_lst = []
         
         init_MPS = StateVec2MPS(self.init_state, self.cir.nqubits)
-- 
2.43.0


From ca34ec109ac58ca814305d226e017762982a0f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:20 +0000
Subject: [PATCH 28/29] fix: Kronecker products and density-matrix conversions
 accept matrices in any memory layout, such as the result of dag

---
 deepquantum/gates/qmath.py          | 5 +++--
 deepquantum/gates/qtensornetwork.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index dc32ffa..82adbac 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -9,9 +9,10 @@ import time
 
 def multi_kron(lst:List[torch.Tensor]):
     #为避免torchscript类型推断错误，需要特别指定输入数据类型
-    rst = lst[0]
+    #torch.kron不接受转置等不连续的张量（例如dag的结果）
+    rst = lst[0].contiguous()
     for i in range(1, len(lst)):
-        rst = torch.kron(rst, lst[i])
+        rst = torch.kron(rst, lst[i].contiguous())
     return rst
 
 
diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index c6b4228..14dacf2 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -209,7 +209,7 @@ def Rho2MPS(Rho:torch.Tensor,N:int)->List[torch.Tensor]:
     if Rho.shape[0] != 2**N or Rho.shape[1] != 2**N:
         raise ValueError('Rho2MPS : dimension of rho must be [2^N, 2^N]')
     MPS_lst = []
-    r_tensor = Rho.view(1,-1)
+    r_tensor = Rho.reshape(1,-1)
     for i in range(N):
         #密度矩阵的reshape过程比态矢复杂得多
         r_tensor = torch.cat(torch.chunk(r_tensor, chunks=2, dim=1),dim=0)#先竖着切一刀，按照行堆叠
@@ -290,7 +290,7 @@ def MatrixProductDensityOperator(rho:torch.Tensor, N:int)->torch.Tensor:
         raise ValueError('MPDO: rho must be matrix(rank-2 tensor)')
     if rho.shape[0] != 2**N or rho.shape[1] != 2**N:
         raise ValueError('MPDO: dimension of rho must be [2^N, 2^N]')
-    rho_tensor = rho.view([2]*2*N)
+    rho_tensor = rho.reshape([2]*2*N)
     assert len(rho_tensor.shape) == 2*N
     return rho_tensor
 
-- 
2.43.0


From ba1e0210d035e2ea0e347afea3a5b2de247d5aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:20 +0000
Subject: [PATCH 29/29] fix: saved-state gradients work when the parameters or
 the initial state require gradients

save_mid_MPS deep-copied the intermediate tensors, which torch refuses for
tensors that are part of a graph.
---
 deepquantum/gates/qcircuit.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index ac22b7c..a368b74 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -361,7 +361,7 @@ class parameter_shift(object):
                 MPS = oper.TN_operation(MPS)
                 #如果这个gate or layer的下一个门操作含有参数，那么演化到此门为止的态就要保存
                 if idx != num_gates-1 and cir.gate[idx+1].num_params != 0:
-                    save_dict[idx] = copy.deepcopy(MPS)
+                    save_dict[idx] = [t.detach().clone() for t in MPS]
             else:
                 raise ValueError(str(oper.info()['label'])
                                  +'-TN_evolution:some part of circuit do not support Tensor Network')
@@ -372,7 +372,7 @@ class parameter_shift(object):
         MPS = M_oper.TN_operation(MPS)
         #暂时只支持单比特PauliX、PauliY、PauliZ这些简单情况
         if cir.gate[num_gates-1].num_params != 0:
-            save_dict[num_gates-1] = copy.deepcopy(MPS)
+            save_dict[num_gates-1] = [t.detach().clone() for t in MPS]
             
         
         
@@ -383,7 +383,7 @@ class parameter_shift(object):
                 MPS = oper.TN_operation(MPS)
                 #如果这个gate or layer的下一个门操作含有参数，那么演化到此门为止的态就要保存
                 if idx != 0 and cir.gate[idx-1].num_params != 0:
-                    save_dict[2*num_gates-idx-1] = copy.deepcopy(MPS)
+                    save_dict[2*num_gates-idx-1] = [t.detach().clone() for t in MPS]
                     
             else:
                 raise ValueError(str(oper.info()['label'])
@@ -401,11 +401,11 @@ class parameter_shift(object):
         #第idx个gate的参数取为p时，正向态与反向态内积的实部
         gate = self.cir.gate[idx]
         gate.params_update(p)
-        #注意TN_operation是会改变输入(MPS)本身的，所以要用deepcopy
+        #注意TN_operation是会改变输入(MPS)本身的，所以要用副本（deepcopy不支持带梯度的中间张量）
         if idx == 0:
-            MPS = copy.deepcopy( init_MPS )
+            MPS = [t.detach().clone() for t in init_MPS]
         else:
-            MPS = copy.deepcopy( save_dict[idx-1] )
+            MPS = [t.detach().clone() for t in save_dict[idx-1]]
         psi1 = MPS2StateVec( gate.TN_operation( MPS ) )
         psi2 = MPS2StateVec( save_dict[2*len(self.cir.gate)-idx-2] )
         return ( psi2.conj() @ psi1.view(-1,1) ).squeeze().real
-- 
2.43.0

