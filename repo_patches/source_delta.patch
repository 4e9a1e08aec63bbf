From 33b794a9d4b174bb386fbefa5edd1f8fc8ec9793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:21 +0000
Subject: [PATCH 01/68] fix: apply element segments of every kind once the
 module has loaded

Segments with expressions were mis-parsed, passive and declarative ones
wrote at an uninitialised offset, entries put into an imported table were
never turned into function entries, and ref.null/ref.func constants left a
heap type unread or an internal pointer behind.
---
 pwart/def.h       | 18 ++++++++++
 pwart/extfunc.c   |  7 ++--
 pwart/modparser.c | 92 +++++++++++++++++++++++++++--------------------
 3 files changed, 75 insertions(+), 42 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index f0cfee0..342a2fc 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -132,6 +132,20 @@ typedef struct pwart_wasm_table Table;
 
 typedef struct pwart_wasm_memory Memory;
 
+// A table slot to be written once the module is known to load: function `fidx`, or `ref` if fidx is -1.
+typedef struct ElemInit {
+    Table   *table;
+    uint32_t index;
+    int32_t  fidx;
+    void    *ref;
+} ElemInit;
+
+// A reference global to be set to function `fidx` once the entries are known.
+typedef struct FuncGlobalInit {
+    uint32_t offset;    // offset in own_globals
+    uint32_t fidx;
+} FuncGlobalInit;
+
 typedef struct Export {
     uint8_t     external_kind;
     char       *export_name;
@@ -186,6 +200,10 @@ typedef struct ModuleCompiler {
 
     struct pwart_symbol_resolver *import_resolver;
 
+    struct dynarr *elem_inits;     // active element segments, type ElemInit
+
+    struct dynarr *func_globals;   // globals initialised with ref.func, type FuncGlobalInit
+
     uint8_t compile_succeeded;
 
     //jit state, used in compile time.
diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index d7bce97..ecdf952 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -523,13 +523,14 @@ static char *waexpr_run_const(ModuleCompiler *m, void *result) {
         }
       } break;
       case 0xd0: //ref.null
+        read_LEB(m->bytes, &m->pc, 7); // heap type
         *(void **)sp=NULL;
         sp+=m->target_ptr_size/8;
         break;
-      case 0xd2: //ref.func
+      case 0xd2: //ref.func, replaced by the function entry at the end of the load.
       {
-        uint32_t arg = read_LEB(m->bytes, &m->pc, 32);
-        *(WasmFunction **)sp = dynarr_get(m->functions,WasmFunction,arg);
+        read_LEB(m->bytes, &m->pc, 32);
+        *(void **)sp = NULL;
         sp+=m->target_ptr_size/8;
       }break;
       case WASMOPC_i32_add:
diff --git a/pwart/modparser.c b/pwart/modparser.c
index f1f40c3..c09540c 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -99,6 +99,8 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
     dynarr_init(&m->context->tables,sizeof(Table *));
     dynarr_init(&m->context->own_globals,sizeof(uint8_t));
     dynarr_init(&m->functions,sizeof(WasmFunction));
+    dynarr_init(&m->elem_inits,sizeof(ElemInit));
+    dynarr_init(&m->func_globals,sizeof(FuncGlobalInit));
     m->context->resolver=m->import_resolver;
     m->context->start_function = 0xffffffff;
 
@@ -357,6 +359,12 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 sv->val.opw=m->context->own_globals->len;
                 // Run the init_expr to get global value
                 m->pc=pos;
+                if(bytes[pos]==0xd2){ // ref.func, set at the end of the load.
+                    uint32_t fpos=pos+1;
+                    FuncGlobalInit *gi=dynarr_push_type(&m->func_globals,FuncGlobalInit);
+                    gi->fidx=read_LEB(bytes, &fpos, 32);
+                    gi->offset=m->context->own_globals->len;
+                }
                 ReturnIfErr(waexpr_run_const(m,&result));
                 pos=m->pc;
                 switch (type) {
@@ -427,39 +435,44 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             wa_debug("Parsing Element(9) section (length: 0x%x)\n", slen);
             uint32_t element_count = read_LEB(bytes, &pos, 32);
             for(uint32_t c=0; c<element_count; c++) {
+                // bit 0: passive or declarative, bit 1: explicit table index(or declarative), bit 2: expressions.
                 uint32_t flags = read_LEB(bytes, &pos, 32);
                 uint32_t index=0;
-                uint32_t offset;
-                void *elem_expr;
-                switch(flags){
-                    case 0:case 4:
-                    index=0;
+                uint32_t offset=0;
+                Table *dtab=NULL;
+                if(flags>7){return "Illegal segment flags.";}
+                if(!(flags&1)){
+                    if(flags&2){index=read_LEB(bytes, &pos, 32);}
                     // Run the init_expr to get offset
                     m->pc=pos;ReturnIfErr(waexpr_run_const(m,&offset));pos=m->pc;
-                    break;
-                    case 1:case 3:
-                    index=0;
-                    pos++; //extern_kind, ignored.
-                    break;
-                    case 2:
-                    index=read_LEB(bytes, &pos, 32);
-                    m->pc=pos;ReturnIfErr(waexpr_run_const(m,&offset));pos=m->pc;
-                    pos++;
-                    break;
-                    case 6:
-                    index=read_LEB(bytes, &pos, 32);
-                    m->pc=pos;ReturnIfErr(waexpr_run_const(m,&elem_expr));pos=m->pc;
-                    case 5:case 7:
-                    m->pc=pos;ReturnIfErr(waexpr_run_const(m,&elem_expr));pos=m->pc;
+                    if(index>=m->context->tables->len){return "Element segment for unknown table.";}
+                    dtab=*dynarr_get(m->context->tables,Table *,index);
+                }
+                if(flags&3){
+                    pos++; //elemkind or reftype, ignored.
                 }
-                
                 uint32_t num_elem = read_LEB(bytes, &pos, 32);
-                Table *dtab=*dynarr_get(m->context->tables,Table *,index);
-                wa_debug("  table.entries: %p, offset: 0x%x\n", dtab->entries, offset);
                 for (uint32_t n=0; n<num_elem; n++) {
-                    wa_debug("  write table entries %p, offset: 0x%x, n: 0x%x, addr: %p\n",
-                            dtab->entries, offset, n, &dtab->entries[offset+n]);
-                    dtab->entries[offset+n] = dynarr_get(m->functions,WasmFunction,read_LEB(bytes, &pos, 32));
+                    int32_t fidx=-1;
+                    void *ref=NULL;
+                    if(!(flags&4)){
+                        fidx=read_LEB(bytes, &pos, 32);
+                    }else if(bytes[pos]==0xd2){ // ref.func
+                        pos++;
+                        fidx=read_LEB(bytes, &pos, 32);
+                        if(bytes[pos]!=0xb){return "const expr miss end instruction.";}
+                        pos++;
+                    }else{
+                        m->pc=pos;ReturnIfErr(waexpr_run_const(m,&ref));pos=m->pc;
+                    }
+                    if(dtab!=NULL){
+                        // Written at the end of the load, when function entries are known.
+                        ElemInit *ei=dynarr_push_type(&m->elem_inits,ElemInit);
+                        ei->table=dtab;
+                        ei->index=offset+n;
+                        ei->fidx=fidx;
+                        ei->ref=ref;
+                    }
                 }
             }
             pos = start_pos+slen;
@@ -558,19 +571,14 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
     for(int i=0;i<m->functions->len;i++){
         m->context->funcentries[i]=dynarr_get(m->functions,WasmFunction,i)->func_ptr;
     }
-    wa_debug("table count %x\n",m->context->own_tables_count);
-    //update table entries to real function entries.
-    for(int i1=0;i1<m->context->own_tables_count;i1++){
-        Table *tab=m->context->own_tables+i1;
-        wa_debug("table type %x\n",tab->elem_type);
-        if(tab->elem_type==WVT_FUNC){
-            for(int i=0;i<tab->size;i++){
-                if(tab->entries[i]!=NULL){
-                    wa_debug("function entry update:%p->%p\n",tab->entries[i],((WasmFunction *)tab->entries[i])->func_ptr);
-                    tab->entries[i]=((WasmFunction *)tab->entries[i])->func_ptr;
-                }
-            }
-        }
+    //write table entries and reference globals, now that function entries are known.
+    for(int i1=0;i1<m->elem_inits->len;i1++){
+        ElemInit *ei=dynarr_get(m->elem_inits,ElemInit,i1);
+        ei->table->entries[ei->index]=ei->fidx>=0?(void *)dynarr_get(m->functions,WasmFunction,ei->fidx)->func_ptr:ei->ref;
+    }
+    for(int i1=0;i1<m->func_globals->len;i1++){
+        FuncGlobalInit *gi=dynarr_get(m->func_globals,FuncGlobalInit,i1);
+        *(void **)(m->context->own_globals->data+gi->offset)=(void *)dynarr_get(m->functions,WasmFunction,gi->fidx)->func_ptr;
     }
 
     //also exports.
@@ -649,6 +657,12 @@ static char *free_module(ModuleCompiler *m){
     if(m->functions!=NULL){
         dynarr_free(&m->functions);
     }
+    if(m->elem_inits!=NULL){
+        dynarr_free(&m->elem_inits);
+    }
+    if(m->func_globals!=NULL){
+        dynarr_free(&m->func_globals);
+    }
     if(m->types_pool.chunks!=NULL){
         pool_free(&m->types_pool);
     }
-- 
2.43.0


From f721642efa62cafcd06579b4162f6c70c2a88b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 02/68] fix: pass all arguments of a tail call intact

Arguments were moved to the start of the frame one by one while later ones
could still refer to parameters stored there, always with aligned offsets
even if the stack is packed, and not at all when the operand stack was
misaligned.
---
 pwart/opgen_utils.c | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 5be0754..b0b8b65 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -381,7 +381,30 @@ static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg
   }
   sv = m->stack+m->sp + 1; // first argument
 
-  if((pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN) && ((sv->frame_offset&7)>0)){
+  if(callReturn){
+    //tail call, the callee takes over the frame of this function.
+    //Save every argument to its own place first, because they may refer to parameters which will be overwritten.
+    for(i=len;i>0;i--){
+      m->sp++;
+      pwart_EmitSaveStack(m,&m->stack[m->sp]);
+    }
+    m->sp-=len;
+    b=0;
+    for(a=0;a<len;a++){
+      sv=m->stack+m->sp+1+a;
+      if(pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN){
+        sv->frame_offset=stackvalue_GetAlignedOffset(sv,b,&b);
+      }else{
+        sv->frame_offset=b;
+        b+=stackvalue_GetSizeAndAlign(sv,NULL);
+      }
+      m->sp+=len;
+      pwart_EmitSaveStack(m,sv);
+      m->sp-=len;
+    }
+    sv=m->stack+m->sp+1; // first argument
+    sv->frame_offset=0;
+  }else if((pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN) && ((sv->frame_offset&7)>0)){
     //XXX: move stack value to align frame to 8 ,we should avoid this happen.
     sv->frame_offset+=4;
     if(len>0){
@@ -401,22 +424,6 @@ static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg
       m->sp-=len;
       sv=m->stack+m->sp+1; // first argument
     }
-  }else if(callReturn){
-    //tail call
-    sv->frame_offset=0;
-    if(len>0){
-      pwart_EmitSaveStack(m,sv);
-      b=sv->frame_offset+stackvalue_GetSizeAndAlign(sv,NULL);
-      m->sp+=len;
-      for(a=1;a<len;a++){
-        sv++;
-        sv->frame_offset = stackvalue_GetAlignedOffset(sv,b,&b);
-        pwart_EmitSaveStack(m,sv);
-      }
-      //move sp back
-      m->sp-=len;
-      sv=m->stack+m->sp+1; // first argument
-    }
   }else{
     for(i=len;i>0;i--){
       m->sp++;
-- 
2.43.0


From f2c8ade5fd3ec1df2402f917b210667665be296b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 03/68] fix: zero the whole of an f64 local

---
 pwart/opgen_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index b0b8b65..3eed099 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -765,7 +765,7 @@ static char* pwart_EmitFuncEnter(ModuleCompiler *m) {
         opgen_GenF32Const(m,(uint8_t *)&f32zero);
         break;
         case WVT_F64:
-        opgen_GenF32Const(m,(uint8_t *)&f64zero);
+        opgen_GenF64Const(m,(uint8_t *)&f64zero);
         break;
         case WVT_I32:
         opgen_GenI32Const(m,0);
-- 
2.43.0


From d638824c81f6d9357e9f86bb2cdc4189621dfa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:47 +0000
Subject: [PATCH 04/68] fix: return several results that are parameters

---
 pwart/opgen_utils.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 3eed099..88b6784 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -488,6 +488,19 @@ static char *pwart_EmitFuncReturn(ModuleCompiler *m) {
     /* maybe unreachable code, Do nothing */
     return NULL;
   }
+  // A result that still refers to a parameter must be saved if an earlier result will be stored there.
+  for (idx = 0; idx < len; idx++) {
+    sv = &m->stack[m->sp - len + idx + 1];
+    if(sv->jit_type==SVT_GENERAL && sv->val.op==SLJIT_MEM1(SLJIT_S0) && sv->val.opw<off){
+      pwart_EmitSaveStack(m,sv);
+    }
+    if(pwart_gcfg.stack_flags & PWART_STACK_FLAGS_AUTO_ALIGN){
+      stackvalue_GetAlignedOffset(sv,off,&off);
+    }else{
+      off += stackvalue_GetSizeAndAlign(sv, NULL);
+    }
+  }
+  off = 0;
   for (idx = 0; idx < len; idx++) {
     sv = &m->stack[m->sp - len + idx + 1];
     if(pwart_gcfg.stack_flags & PWART_STACK_FLAGS_AUTO_ALIGN){
-- 
2.43.0


From dfd1d4044fdff92fb68a3d06d3e5115fcdc519c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:47 +0000
Subject: [PATCH 05/68] fix: read the memory index before the offset when
 looking for the memory to cache

---
 pwart/wagen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/wagen.c b/pwart/wagen.c
index 2a0a59f..f05d7ac 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -224,8 +224,8 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
     case 0x28:  case 0x29:  case 0x2a:  case 0x2b:  case 0x2c:  case 0x2d:  case 0x2e:  case 0x2f:  case 0x30:  case 0x31:  case 0x32:  case 0x33:  case 0x34:  case 0x35:  case 0x36:  case 0x37:  case 0x38:  case 0x39:  case 0x3a:  case 0x3b:  case 0x3c:  case 0x3d:  case 0x3e: 
       midx=0;
       arg = read_LEB(m->bytes, &m->pc, 32);
-      offset = read_LEB(m->bytes, &m->pc, 32);
       if(arg&0x40)midx=read_LEB(m->bytes, &m->pc, 32);
+      offset = read_LEB(m->bytes, &m->pc, 32);
       if(m->cached_midx<0 && (*dynarr_get(m->context->memories,Memory *,midx))->bytes!=NULL){
         m->mem_base_local = -2;
         m->cached_midx=midx;
-- 
2.43.0


From efaa3bee0496f8c6a0c8264fb5308ae707dc8294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:04 +0000
Subject: [PATCH 06/68] fix: grow memories within their storage, and refuse
 when storage is refused

---
 pwart/extfunc.c   | 19 +++++++++++++------
 pwart/modparser.c |  9 ++++-----
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index ecdf952..2173ea5 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -292,17 +292,24 @@ static void insn_memorygrow(void *fp){
   uint32_t index=pwart_rstack_get_i32(&sp); // memory index
   RuntimeContext *m=pwart_rstack_get_ref(&sp);
   Memory *mem=*dynarr_get(m->memories,Memory *,index);
-  int32_t prev_pages = mem->pages;
-  if (delta + prev_pages > mem->maximum) {
+  uint32_t prev_pages = mem->pages;
+  if ((uint64_t)delta + prev_pages > mem->maximum) {
     sp=fp;
     pwart_rstack_put_i32(&sp,-1);
     return;
   }
-  mem->pages += delta;
-  if(!mem->fixed){
-    mem->bytes = wa_realloc(mem->bytes, mem->pages * PAGE_SIZE);
-    memset(mem->bytes+prev_pages*PAGE_SIZE,0,delta*PAGE_SIZE);
+  if(!mem->fixed && delta>0){
+    uint8_t *bytes = wa_realloc(mem->bytes, ((size_t)prev_pages + delta) * PAGE_SIZE);
+    if(bytes==NULL){
+      // the memory is still the old one.
+      sp=fp;
+      pwart_rstack_put_i32(&sp,-1);
+      return;
+    }
+    memset(bytes+(size_t)prev_pages*PAGE_SIZE,0,(size_t)delta*PAGE_SIZE);
+    mem->bytes = bytes;
   }
+  mem->pages += delta;
   sp=fp;
   pwart_rstack_put_i32(&sp,prev_pages);
   return;
diff --git a/pwart/modparser.c b/pwart/modparser.c
index c09540c..40c3712 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -330,11 +330,10 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 Memory *memory=m->context->own_memories+i;
                 parse_memory_type(m, &pos,memory);
                 //XXX: custom memory creator?
-                if(memory->fixed){
-                    memory->bytes = wa_calloc(memory->initial*PAGE_SIZE);
-                }else{
-                    memory->bytes = wa_calloc(memory->maximum*PAGE_SIZE);
-                }
+                //fixed memory never move, so reserve the room to grow now.
+                size_t size=(size_t)(memory->fixed?memory->maximum:memory->initial)*PAGE_SIZE;
+                memory->bytes = wa_calloc(size>0?size:1);
+                if(memory->bytes==NULL){return "out of memory";}
                 *dynarr_push_type(&m->context->memories,Memory *)=memory;
             }
         }
-- 
2.43.0


From f57cdb15d93e94381b1b98c358a05a2f257d787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:35 +0000
Subject: [PATCH 07/68] fix: read the memory size when memory.size executes

---
 pwart/opgen_mem.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index 629d9ed..a8fd9dd 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -140,9 +140,11 @@ static void opgen_GenCurrentMemory(ModuleCompiler *m,uint32_t index) {
   StackValue *sv;
   a = pwart_GetFreeReg(m, RT_INTEGER, 0);
   sljit_emit_op1(m->jitc,SLJIT_MOV,a,0,SLJIT_IMM,(sljit_uw)(&(*dynarr_get(m->context->memories,Memory *,index))->pages));
+  //read it now, the memory may grow before the value is used.
+  sljit_emit_op1(m->jitc,SLJIT_MOV32,a,0,SLJIT_MEM1(a),0);
   sv = stackvalue_Push(m, WVT_I32);
   sv->jit_type = SVT_GENERAL;
-  sv->val.op = SLJIT_MEM1(a);
+  sv->val.op = a;
   sv->val.opw = 0;
 }
 static void opgen_GenMemoryGrow(ModuleCompiler *m,uint32_t index) {
-- 
2.43.0


From deda32c7008259897690ddbffc11c7832d0f9e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:51 +0000
Subject: [PATCH 08/68] fix: read the table size when table.size executes

---
 pwart/opgen_misc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pwart/opgen_misc.c b/pwart/opgen_misc.c
index e7c4cb3..8334797 100644
--- a/pwart/opgen_misc.c
+++ b/pwart/opgen_misc.c
@@ -48,9 +48,11 @@ static void opgen_GenTableSize(ModuleCompiler *m,int tabidx){
   r = pwart_GetFreeReg(m, RT_INTEGER, 0);
   Table *tab=*dynarr_get(m->context->tables,Table *,tabidx);
   sljit_emit_op1(m->jitc,SLJIT_MOV,r,0,SLJIT_IMM,(sljit_sw)&tab->size);
+  //read it now, the register may be reused as the result of the instruction that use the value.
+  sljit_emit_op1(m->jitc,SLJIT_MOV32,r,0,SLJIT_MEM1(r),0);
   sv = stackvalue_Push(m, WVT_I32);
   sv->jit_type = SVT_GENERAL;
-  sv->val.op = SLJIT_MEM1(r);
+  sv->val.op = r;
   sv->val.opw = 0;
 }
 
-- 
2.43.0


From e339bded26a99ed84e5e0f72a975f69eb5227cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:26 +0000
Subject: [PATCH 09/68] fix: keep stack values in one place where control flow
 joins

---
 pwart/opgen_ctl.c   | 12 +++---------
 pwart/opgen_utils.c | 16 +++++++++++++---
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index e5325c4..1cba6b6 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -45,9 +45,7 @@ static void opgen_GenIf(ModuleCompiler *m,int stackOffset) {
   struct sljit_jump *jump;
   StackValue *stack = m->stack;
   // stack top will be remove soon. Don't save it here.
-  for (int i = 0; i < m->sp; i++) {
-    pwart_EmitSaveStack(m, &m->stack[i]);
-  }
+  pwart_EmitSaveStackUpTo(m,m->sp-1);
   #if PWART_DEBUG_RUNTIME_PROBE
   pwart_EmitSaveStackAll(m);
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
@@ -147,9 +145,7 @@ static void opgen_GenBrIf(ModuleCompiler *m, int32_t depth) {
   StackValue *stack = m->stack;
   sv = &stack[m->sp];
   // stack top will be remove soon. Don't save it here.
-  for (int i = 0; i < m->sp; i++) {
-    pwart_EmitSaveStack(m, &m->stack[i]);
-  }
+  pwart_EmitSaveStackUpTo(m,m->sp-1);
   #if PWART_DEBUG_RUNTIME_PROBE
   pwart_EmitSaveStackAll(m);
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
@@ -188,9 +184,7 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
   StackValue *sv;
   sv=m->stack+m->sp;
   count = m->br_table->len-1;
-  for (int i = 0; i < m->sp; i++) {
-    pwart_EmitSaveStack(m, &m->stack[i]);
-  }
+  pwart_EmitSaveStackUpTo(m,m->sp-1);
   #if PWART_DEBUG_RUNTIME_PROBE
   pwart_EmitSaveStackAll(m);
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 88b6784..2b75bc8 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -221,14 +221,24 @@ static char* pwart_EmitSaveStack(ModuleCompiler *m, StackValue *sv) {
   return NULL;
 }
 
-static char* pwart_EmitSaveStackAll(ModuleCompiler *m) {
-  int i;
-  for (i = 0; i <= m->sp; i++) {
+// Save stack[0..top] to the place every path to a label agree on.
+static char* pwart_EmitSaveStackUpTo(ModuleCompiler *m,int top) {
+  int i,off=m->first_stackvalue_offset;
+  for (i = 0; i <= top; i++) {
+    if(pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN){
+      //values may have been moved when a call aligned its frame.
+      m->stack[i].frame_offset=i==0?off:stackvalue_GetAlignedOffset(&m->stack[i],off,NULL);
+      off=m->stack[i].frame_offset+stackvalue_GetSizeAndAlign(&m->stack[i],NULL);
+    }
     pwart_EmitSaveStack(m, &m->stack[i]);
   }
   return NULL;
 }
 
+static char* pwart_EmitSaveStackAll(ModuleCompiler *m) {
+  return pwart_EmitSaveStackUpTo(m,m->sp);
+}
+
 static char* pwart_EmitSaveScratchRegisterAll(ModuleCompiler *m,int upstack) {
   int i,usereg=0;
   for (i = 0; i <= m->sp-upstack; i++) {
-- 
2.43.0


From ab9504fc24b1807aed0ad8af2120b3e343bb41ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:51 +0000
Subject: [PATCH 10/68] fix: prepare the table entries for table.copy and
 table.fill

---
 pwart/wagen.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pwart/wagen.c b/pwart/wagen.c
index f05d7ac..c4bb1fc 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -234,6 +234,22 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
     case 0xd2: // ref.func
       fidx = read_LEB(bytes, &m->pc, 32);
       break;
+    case 0xfc: // misc op
+      m->pc--;
+      wasm_SkipImmediates(m->bytes, &m->pc);
+      cur_pc++;
+      switch(bytes[cur_pc++]){
+        case 0x0e: // table.copy
+          tidx = read_LEB(bytes, &cur_pc, 32); // destination table index
+          tabidx = read_LEB(bytes, &cur_pc, 32); // source table index
+          if(tidx==0 || tabidx==0)m->table_entries_local = -2;
+          break;
+        case 0x11: // table.fill
+          tidx = read_LEB(bytes, &cur_pc, 32); // table index
+          if(tidx==0)m->table_entries_local = -2;
+          break;
+      }
+      break;
     case 0x20: //local.get
       arg=read_LEB(bytes, &m->pc, 32);
       sv=dynarr_get(m->locals,StackValue,arg);
-- 
2.43.0


From 1ac1b49d74c3006e992ae0c200fcf33f58f22b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:31 +0000
Subject: [PATCH 11/68] fix: keep the arguments of a call together when one of
 them was moved to align a frame

---
 pwart/opgen_ctl.c   |  6 +++---
 pwart/opgen_utils.c | 26 ++++++++++++--------------
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index 1cba6b6..eaea1ab 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -45,7 +45,7 @@ static void opgen_GenIf(ModuleCompiler *m,int stackOffset) {
   struct sljit_jump *jump;
   StackValue *stack = m->stack;
   // stack top will be remove soon. Don't save it here.
-  pwart_EmitSaveStackUpTo(m,m->sp-1);
+  pwart_EmitSaveStackRange(m,0,m->sp-1);
   #if PWART_DEBUG_RUNTIME_PROBE
   pwart_EmitSaveStackAll(m);
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
@@ -145,7 +145,7 @@ static void opgen_GenBrIf(ModuleCompiler *m, int32_t depth) {
   StackValue *stack = m->stack;
   sv = &stack[m->sp];
   // stack top will be remove soon. Don't save it here.
-  pwart_EmitSaveStackUpTo(m,m->sp-1);
+  pwart_EmitSaveStackRange(m,0,m->sp-1);
   #if PWART_DEBUG_RUNTIME_PROBE
   pwart_EmitSaveStackAll(m);
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
@@ -184,7 +184,7 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
   StackValue *sv;
   sv=m->stack+m->sp;
   count = m->br_table->len-1;
-  pwart_EmitSaveStackUpTo(m,m->sp-1);
+  pwart_EmitSaveStackRange(m,0,m->sp-1);
   #if PWART_DEBUG_RUNTIME_PROBE
   pwart_EmitSaveStackAll(m);
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 2b75bc8..492f214 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -221,14 +221,17 @@ static char* pwart_EmitSaveStack(ModuleCompiler *m, StackValue *sv) {
   return NULL;
 }
 
-// Save stack[0..top] to the place every path to a label agree on.
-static char* pwart_EmitSaveStackUpTo(ModuleCompiler *m,int top) {
+// Save stack[from..to] to the place every path to a label, and every call, agree on.
+static char* pwart_EmitSaveStackRange(ModuleCompiler *m,int from,int to) {
   int i,off=m->first_stackvalue_offset;
-  for (i = 0; i <= top; i++) {
+  for (i = from; i <= to; i++) {
     if(pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN){
       //values may have been moved when a call aligned its frame.
-      m->stack[i].frame_offset=i==0?off:stackvalue_GetAlignedOffset(&m->stack[i],off,NULL);
-      off=m->stack[i].frame_offset+stackvalue_GetSizeAndAlign(&m->stack[i],NULL);
+      if(i>0){
+        off=m->stack[i-1].frame_offset+stackvalue_GetSizeAndAlign(&m->stack[i-1],NULL);
+        off=stackvalue_GetAlignedOffset(&m->stack[i],off,NULL);
+      }
+      m->stack[i].frame_offset=off;
     }
     pwart_EmitSaveStack(m, &m->stack[i]);
   }
@@ -236,7 +239,7 @@ static char* pwart_EmitSaveStackUpTo(ModuleCompiler *m,int top) {
 }
 
 static char* pwart_EmitSaveStackAll(ModuleCompiler *m) {
-  return pwart_EmitSaveStackUpTo(m,m->sp);
+  return pwart_EmitSaveStackRange(m,0,m->sp);
 }
 
 static char* pwart_EmitSaveScratchRegisterAll(ModuleCompiler *m,int upstack) {
@@ -387,6 +390,9 @@ static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg
     stackvalue_Push(m,WVT_I32);
     m->sp--;
   }else{
+    if(!callReturn){
+      pwart_EmitSaveStackRange(m,m->sp-len+1,m->sp);
+    }
     m->sp -= len;
   }
   sv = m->stack+m->sp + 1; // first argument
@@ -434,14 +440,6 @@ static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg
       m->sp-=len;
       sv=m->stack+m->sp+1; // first argument
     }
-  }else{
-    for(i=len;i>0;i--){
-      m->sp++;
-      pwart_EmitSaveStack(m,&m->stack[m->sp]);
-    }
-    //move sp back
-    m->sp-=len;
-    sv=m->stack+m->sp+1; // first argument
   }
 
   func_frame_offset=sv->frame_offset;
-- 
2.43.0


From 1554ac9b608b19d1bd36a7843ca775f1dd154a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:51 +0000
Subject: [PATCH 12/68] fix: return an error for bytes that are not a version 1
 module

---
 pwart/modparser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 40c3712..0d98743 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -106,10 +106,11 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
 
     // Check the module
     pos = 0;
+    if(byte_count<8){return "module too short";}
     word = read_uint32(bytes, &pos);
-    wa_assert(word == WA_MAGIC, "Wrong module magic\n");
+    if(word != WA_MAGIC){return "Wrong module magic";}
     word = read_uint32(bytes, &pos);
-    wa_assert(word == WA_VERSION, "Wrong module version\n");
+    if(word != WA_VERSION){return "Wrong module version";}
 
     // Read the sections
     while (pos < byte_count) {
-- 
2.43.0


From 764bb2340a11964d61c06cc4c2f98ef8addcbc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:51 +0000
Subject: [PATCH 13/68] fix: free exactly the code that was generated when a
 load fails

---
 pwart/modparser.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 0d98743..29bd820 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -72,6 +72,15 @@ static Export *get_export(RuntimeContext *rc, const char *name, uint32_t *kind)
 }
 
 
+static char *alloc_funcentries(ModuleCompiler *m){
+    RuntimeContext *rc=m->context;
+    rc->funcentries=wa_calloc((m->functions->len+1)*sizeof(WasmFunctionEntry));
+    if(rc->funcentries==NULL){return "out of memory";}
+    rc->funcentries_count=m->functions->len;
+    rc->import_funcentries_count=m->import_count;
+    return NULL;
+}
+
 static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count) {
     uint8_t   vt;
     char err;
@@ -517,9 +526,11 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
         case 10:
             wa_debug("Parsing Code(10) section (length: 0x%x)\n", slen);
             uint32_t body_count = read_LEB(bytes, &pos, 32);
+            if(m->context->funcentries!=NULL || m->import_count+body_count!=m->functions->len){
+                return "function and code section have inconsistent lengths.";
+            }
             //we must allocate space for function entries here, for code generator.
-            m->context->funcentries_count=m->import_count+body_count;
-            m->context->funcentries=wa_malloc(m->context->funcentries_count*sizeof(WasmFunctionEntry));
+            ReturnIfErr(alloc_funcentries(m));
             for (uint32_t b=0; b<body_count; b++) {
                 wa_debug("generate code for function %d\n",b);
                 WasmFunction *function = dynarr_get(m->functions,WasmFunction,m->import_count+b);
@@ -553,6 +564,8 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 }
                 m->pc=pos;
                 ReturnIfErr(pwart_EmitFunction(m,function));
+                // owned by the context from now on, even if the load fails later.
+                m->context->funcentries[m->import_count+b]=function->func_ptr;
                 pos=m->pc;
                 wa_assert(bytes[pos-1] == 0x0b,
                        "Code section did not end with 0x0b\n");
@@ -567,7 +580,13 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
     }
 
     //set functionentry
-    m->context->import_funcentries_count=m->import_count;
+    if(m->context->funcentries==NULL){
+        // no code section
+        if(m->import_count!=m->functions->len){
+            return "function and code section have inconsistent lengths.";
+        }
+        ReturnIfErr(alloc_funcentries(m));
+    }
     for(int i=0;i<m->functions->len;i++){
         m->context->funcentries[i]=dynarr_get(m->functions,WasmFunction,i)->func_ptr;
     }
@@ -631,7 +650,7 @@ static int free_runtimectx(RuntimeContext *rc){
     if(rc->funcentries!=NULL){
         //only free code generate by module self.
         for(i=rc->import_funcentries_count;i<rc->funcentries_count;i++){
-            if(rc->funcentries!=NULL)
+            if(rc->funcentries[i]!=NULL)
                 pwart_FreeFunction(rc->funcentries[i]);
         }
         wa_free(rc->funcentries);
-- 
2.43.0


From 3473608d3e1ab1dbeb12aa6cefd77345555067ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:51 +0000
Subject: [PATCH 14/68] fix: reject a module whose table cannot be allocated

---
 pwart/modparser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 29bd820..8f5389a 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -318,12 +318,14 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             uint32_t table_count = read_LEB(bytes, &pos, 32);
             m->context->own_tables_count=table_count;
             m->context->own_tables=wa_calloc(sizeof(Table)*table_count);
+            if(m->context->own_tables==NULL && table_count>0){return "out of memory";}
             wa_debug("  table count: 0x%x\n", table_count);
             for(int i=0;i<table_count;i++){
                 Table *table=m->context->own_tables+i;
                 wa_debug("create new table at %p\n",table);
                 parse_table_type(m, &pos,table);
-                table->entries = wa_calloc(table->size*sizeof(void *));
+                table->entries = wa_calloc(table->size>0?table->size*sizeof(void *):1);
+                if(table->entries==NULL){return "out of memory";}
                 *dynarr_push_type(&m->context->tables,Table *)=table;
             }
         }
@@ -335,6 +337,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             uint32_t memory_count = read_LEB(bytes, &pos, 32);
             m->context->own_memories_count=memory_count;
             m->context->own_memories=wa_calloc(sizeof(Memory)*memory_count);
+            if(m->context->own_memories==NULL && memory_count>0){return "out of memory";}
             wa_debug("  memory count: 0x%x\n", memory_count);
             for(int i=0;i<memory_count;i++){
                 Memory *memory=m->context->own_memories+i;
-- 
2.43.0


From 1f2fd432fdfa9a1728f8ef8b86587b05925bf0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:30 +0000
Subject: [PATCH 15/68] fix: report failures of the jit compiler as load errors

---
 pwart/wagen.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pwart/wagen.c b/pwart/wagen.c
index c4bb1fc..890704f 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -303,6 +303,18 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
   return NULL;
 }
 
+// Labels and jumps are NULL once the jit compiler failed, so stop as soon as possible.
+static char *pwart_CheckCompilerError(ModuleCompiler *m){
+  switch(sljit_get_compiler_error(m->jitc)){
+    case SLJIT_SUCCESS:
+    return NULL;
+    case SLJIT_ERR_ALLOC_FAILED:
+    return "out of memory";
+    default:
+    return "generate code failed";
+  }
+}
+
 /*
 r0,r1,r2 is scratch registers(at least three registers are required.).
 s0(arg0) contains stack frame pointer.
@@ -316,11 +328,13 @@ static char *pwart_GenCode(ModuleCompiler *m) {
   #endif
 
   m->jitc = sljit_create_compiler(NULL);
+  if(m->jitc==NULL){return "out of memory";}
 #if DEBUG_BUILD
   m->jitc->verbose = stdout;
 #endif
 
   pwart_EmitFuncEnter(m);
+  ReturnIfErr(pwart_CheckCompilerError(m));
 
   m->blocks = NULL;
   dynarr_init(&m->blocks, sizeof(Block));
@@ -359,6 +373,7 @@ static char *pwart_GenCode(ModuleCompiler *m) {
     } else {
       ReturnIfErr(opgen_GenMiscOp(m, opcode));
     }
+    ReturnIfErr(pwart_CheckCompilerError(m));
   }
 
   #if DEBUG_BUILD
@@ -390,6 +405,7 @@ static char *pwart_EmitFunction(ModuleCompiler *m, WasmFunction *func) {
   m->pc = savepos;
   ReturnIfErr(pwart_GenCode(m));
   code = (WasmFunctionEntry)sljit_generate_code(m->jitc,0,NULL);
+  if(code==NULL){return "generate code failed, maybe out of memory.";}
   sljit_free_compiler(m->jitc);
   m->jitc=NULL;
   dynarr_free(&m->locals);
-- 
2.43.0


From 656ee2f886d92ebac29c2f3839e87fa8d2c946d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:11 +0000
Subject: [PATCH 16/68] fix: free the per-function arrays of the compiler

---
 pwart/modparser.c | 1 -
 pwart/wagen.c     | 8 --------
 2 files changed, 9 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 8f5389a..44c7e5a 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -152,7 +152,6 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             int count,count2;
             wa_debug("Parsing Type(1) section (length: 0x%x)\n", slen);
             count = read_LEB(bytes, &pos, 32);
-            m->types=NULL;
             dynarr_init(&m->types,sizeof(Type));
             for (uint32_t c=0; c<count; c++) {
                 Type *type = dynarr_push_type(&m->types,Type);
diff --git a/pwart/wagen.c b/pwart/wagen.c
index 890704f..24f024a 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -119,9 +119,7 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
   uint8_t opcode, eof=0;
   uint32_t len = 0;
   Block *blk = NULL;
-  m->locals = NULL;
   dynarr_init(&m->locals, sizeof(StackValue));
-  m->blocks=NULL;
   dynarr_init(&m->blocks,sizeof(Block));
   m->cached_midx=-1;
   int i;
@@ -278,7 +276,6 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
     }
   }
   if(m->bytes[m->pc - 1] != 0xb){return "Function not end with 0x0b, unsupported feature may used.";}
-  m->locals_need_zero=NULL;
   if(pwart_gcfg.misc_flags&PWART_MISC_FLAGS_LOCALS_ZERO_INIT){
     dynarr_init(&m->locals_need_zero,sizeof(int16_t));
     for(int i1=paramCnt;i1<m->locals->len;i1++){
@@ -336,9 +333,7 @@ static char *pwart_GenCode(ModuleCompiler *m) {
   pwart_EmitFuncEnter(m);
   ReturnIfErr(pwart_CheckCompilerError(m));
 
-  m->blocks = NULL;
   dynarr_init(&m->blocks, sizeof(Block));
-  m->br_table = NULL;
   dynarr_init(&m->br_table, sizeof(uint32_t));
 
   block = dynarr_push_type(&m->blocks, Block);
@@ -398,9 +393,6 @@ static char *pwart_EmitFunction(ModuleCompiler *m, WasmFunction *func) {
   m->function_type = dynarr_get(m->types, Type, func->tidx);
   m->function_locals_type = func->locals_type;
 
-  m->locals = NULL;
-  dynarr_init(&m->locals, sizeof(StackValue));
-
   ReturnIfErr(pwart_PrepareFunc(m));
   m->pc = savepos;
   ReturnIfErr(pwart_GenCode(m));
-- 
2.43.0


From c645c76119de2a3748c0984a5c24cba5863f982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:11 +0000
Subject: [PATCH 17/68] fix: free a compiler that never compiled anything

---
 pwart/modparser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 44c7e5a..bb12e23 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -666,7 +666,7 @@ static int free_runtimectx(RuntimeContext *rc){
 
 static char *free_module(ModuleCompiler *m){
     int i=0;
-    if(!m->compile_succeeded){
+    if(!m->compile_succeeded && m->context!=NULL){
         free_runtimectx(m->context);
     }
     if(m->types!=NULL){
-- 
2.43.0


From 2e72294ca1872050ed44c5ceeffb486fbfff60d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:11 +0000
Subject: [PATCH 18/68] fix: leave imported memories alone when a load fails

---
 pwart/def.h       | 10 ++++++++++
 pwart/modparser.c | 23 ++++++++++++++++++-----
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index 342a2fc..1285df1 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -140,6 +140,14 @@ typedef struct ElemInit {
     void    *ref;
 } ElemInit;
 
+// Bytes to be copied into a memory once the module is known to load.
+typedef struct DataInit {
+    Memory  *memory;
+    uint32_t offset;
+    uint32_t pos;       // position of the bytes in the module
+    uint32_t size;
+} DataInit;
+
 // A reference global to be set to function `fidx` once the entries are known.
 typedef struct FuncGlobalInit {
     uint32_t offset;    // offset in own_globals
@@ -202,6 +210,8 @@ typedef struct ModuleCompiler {
 
     struct dynarr *elem_inits;     // active element segments, type ElemInit
 
+    struct dynarr *data_inits;     // active data segments, type DataInit
+
     struct dynarr *func_globals;   // globals initialised with ref.func, type FuncGlobalInit
 
     uint8_t compile_succeeded;
diff --git a/pwart/modparser.c b/pwart/modparser.c
index bb12e23..1db4f11 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -109,6 +109,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
     dynarr_init(&m->context->own_globals,sizeof(uint8_t));
     dynarr_init(&m->functions,sizeof(WasmFunction));
     dynarr_init(&m->elem_inits,sizeof(ElemInit));
+    dynarr_init(&m->data_inits,sizeof(DataInit));
     dynarr_init(&m->func_globals,sizeof(FuncGlobalInit));
     m->context->resolver=m->import_resolver;
     m->context->start_function = 0xffffffff;
@@ -514,12 +515,14 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 ReturnIfErr(waexpr_run_const(m,&offset));
                 pos=m->pc;
 
-                // Copy the data to the memory offset
+                // Copied to the memory at the end of the load.
                 uint32_t size = read_LEB(bytes, &pos, 32);
-                Memory *memory=*dynarr_get(m->context->memories,Memory *,midx);
-                wa_debug("  setting %d bytes of memory at %p + offset %d\n",
-                    size, memory->bytes, offset);
-                memcpy(memory->bytes+offset, bytes+pos, size);
+                if(midx>=m->context->memories->len){return "Data segment for unknown memory.";}
+                DataInit *di=dynarr_push_type(&m->data_inits,DataInit);
+                di->memory=*dynarr_get(m->context->memories,Memory *,midx);
+                di->offset=offset;
+                di->pos=pos;
+                di->size=size;
                 pos += size;
                 
             }
@@ -592,6 +595,13 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
     for(int i=0;i<m->functions->len;i++){
         m->context->funcentries[i]=dynarr_get(m->functions,WasmFunction,i)->func_ptr;
     }
+    //write memories, nothing can fail any more.
+    for(int i1=0;i1<m->data_inits->len;i1++){
+        DataInit *di=dynarr_get(m->data_inits,DataInit,i1);
+        wa_debug("  setting %d bytes of memory at %p + offset %d\n",
+            di->size, di->memory->bytes, di->offset);
+        memcpy(di->memory->bytes+di->offset, bytes+di->pos, di->size);
+    }
     //write table entries and reference globals, now that function entries are known.
     for(int i1=0;i1<m->elem_inits->len;i1++){
         ElemInit *ei=dynarr_get(m->elem_inits,ElemInit,i1);
@@ -681,6 +691,9 @@ static char *free_module(ModuleCompiler *m){
     if(m->elem_inits!=NULL){
         dynarr_free(&m->elem_inits);
     }
+    if(m->data_inits!=NULL){
+        dynarr_free(&m->data_inits);
+    }
     if(m->func_globals!=NULL){
         dynarr_free(&m->func_globals);
     }
-- 
2.43.0


From 7381c18ad8d8bbaf19df83d813e6bd7eb9252c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:11 +0000
Subject: [PATCH 19/68] fix: reject segments that do not fit instead of writing
 past the object

---
 pwart/modparser.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 1db4f11..3e61546 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -595,6 +595,19 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
     for(int i=0;i<m->functions->len;i++){
         m->context->funcentries[i]=dynarr_get(m->functions,WasmFunction,i)->func_ptr;
     }
+    //reject segments that do not fit, before anything is written.
+    for(int i1=0;i1<m->data_inits->len;i1++){
+        DataInit *di=dynarr_get(m->data_inits,DataInit,i1);
+        if((uint64_t)di->offset+di->size > (uint64_t)di->memory->pages*PAGE_SIZE){
+            return "Data segment does not fit.";
+        }
+    }
+    for(int i1=0;i1<m->elem_inits->len;i1++){
+        ElemInit *ei=dynarr_get(m->elem_inits,ElemInit,i1);
+        if(ei->index>=ei->table->size){
+            return "Element segment does not fit.";
+        }
+    }
     //write memories, nothing can fail any more.
     for(int i1=0;i1<m->data_inits->len;i1++){
         DataInit *di=dynarr_get(m->data_inits,DataInit,i1);
-- 
2.43.0


From 64eef28b2c2501bdde9f1c983a9f65ddf3415740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:50 +0000
Subject: [PATCH 20/68] fix: reject functions with too many locals instead of
 exiting

---
 pwart/modparser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 3e61546..401854e 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -555,6 +555,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                     tidx =  read_LEB(bytes, &pos, 7);
                     (void)tidx; // TODO: use tidx?
                 }
+                if(local_count>255){return "too many locals.(should less than 256)";}
                 function->locals_type = (uint8_t *)pool_alloc(&m->types_pool,local_count+1);
                 //Read the locals
                 pos = save_pos; 
@@ -572,8 +573,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 // owned by the context from now on, even if the load fails later.
                 m->context->funcentries[m->import_count+b]=function->func_ptr;
                 pos=m->pc;
-                wa_assert(bytes[pos-1] == 0x0b,
-                       "Code section did not end with 0x0b\n");
+                if(bytes[pos-1] != 0x0b){return "Code section did not end with 0x0b";}
             }
             break;
         default:
-- 
2.43.0


From 2ef57a66eda426f43cde00bcde6f9185fb0cdd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:11 +0000
Subject: [PATCH 21/68] fix: reject functions with too many operands instead of
 exiting

---
 pwart/def.h         | 1 +
 pwart/opgen_utils.c | 6 +++++-
 pwart/wagen.c       | 1 +
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pwart/def.h b/pwart/def.h
index 1285df1..a451ded 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -227,6 +227,7 @@ typedef struct ModuleCompiler {
     struct dynarr *br_table; // br_table branch indexes, uint32_t type
     uint8_t eof;      // end of function
     int8_t block_returned; //the block has br/return out.
+    uint8_t stack_overflow; //more operands than `stack` can hold.
 
     //prepare info, used in compile time
     #if DEBUG_BUILD
diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 492f214..9eecdbc 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -320,6 +320,11 @@ static inline size_t get_funcarr_offset(ModuleCompiler *m) {
 // function).
 static StackValue *stackvalue_Push(ModuleCompiler *m, int32_t wasm_type) {
   StackValue *sv2,*sv;
+  if(m->sp>=OPERAND_STACK_COUNT-2){
+    //the load fails as soon as the current instruction is done.
+    m->stack_overflow=1;
+    m->sp=OPERAND_STACK_COUNT-3;
+  }
   sv2 = &m->stack[++m->sp];
   sv2->jit_type = SVT_GENERAL;
   sv2->wasm_type=wasm_type;
@@ -333,7 +338,6 @@ static StackValue *stackvalue_Push(ModuleCompiler *m, int32_t wasm_type) {
       sv2->frame_offset=stackvalue_GetAlignedOffset(sv2,sv2->frame_offset,NULL);
     }
   }
-  wa_assert(m->sp<OPERAND_STACK_COUNT-1,"operand stack overflow");
   return sv2;
 }
 
diff --git a/pwart/wagen.c b/pwart/wagen.c
index 24f024a..bbb5020 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -302,6 +302,7 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
 
 // Labels and jumps are NULL once the jit compiler failed, so stop as soon as possible.
 static char *pwart_CheckCompilerError(ModuleCompiler *m){
+  if(m->stack_overflow){return "operand stack overflow";}
   switch(sljit_get_compiler_error(m->jitc)){
     case SLJIT_SUCCESS:
     return NULL;
-- 
2.43.0


From fefa2772a744a951efbf06d7c34633b110d7cafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:55 +0000
Subject: [PATCH 22/68] fix: free the compiler when a module cannot be defined
 in a namespace

---
 pwart/namespace.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pwart/namespace.c b/pwart/namespace.c
index 06c8389..72e5174 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -150,6 +150,7 @@ extern pwart_module_state *pwart_namespace_define_wasm_module(pwart_namespace ns
         state=pwart_get_module_state(m);
     }else{
         if(err_msg!=NULL)*err_msg=err;
+        pwart_free_module_compiler(m);
         return NULL;
     }
     pwart_free_module_compiler(m);
-- 
2.43.0


From 61c44e40dad00ee819dae4737702f46b68c762be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:55 +0000
Subject: [PATCH 23/68] fix: report a failed load to the code that asked for it

---
 pwart/extfunc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 2173ea5..a082da1 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -401,7 +401,7 @@ static void insn_load_module(void *fp){
   Namespace *ns=namespace_GetNamespaceFormResolver(m->resolver);
   char *err_msg=NULL;
   pwart_module_state stat=pwart_namespace_define_wasm_module((pwart_namespace)ns,name,wasm_bytes,length,&err_msg);
-  pwart_wasm_function stfn=pwart_get_start_function(stat);
+  pwart_wasm_function stfn=stat!=NULL?pwart_get_start_function(stat):NULL;
   if(stfn!=NULL){
     pwart_call_wasm_function(stfn,sp);
   }
-- 
2.43.0


From b057d86de5e6ba401cbd19f33ce8e83281c49bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:55 +0000
Subject: [PATCH 24/68] fix: free the module list of a deleted namespace

---
 pwart/namespace.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pwart/namespace.c b/pwart/namespace.c
index 72e5174..cce125d 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -75,6 +75,7 @@ extern char *pwart_namespace_delete(pwart_namespace ns){
                 break;
         }
     }
+    dynarr_free(&n->mods);
     if(n->nsmeta!=NULL){
         wa_free(n->nsmeta);
     }
-- 
2.43.0


From f7a11bb13a623a64d5ef0205d16af5536f8e9dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:39 +0000
Subject: [PATCH 25/68] fix: forget removed modules and allow notifications to
 change the namespace

---
 pwart/namespace.c | 68 ++++++++++++++++++++++++++++-------------------
 1 file changed, 41 insertions(+), 27 deletions(-)

diff --git a/pwart/namespace.c b/pwart/namespace.c
index cce125d..c8024f7 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -8,6 +8,8 @@
 
 #include "util.c"
 
+static const int module_type_null=PWART_MODULE_TYPE_NULL
+
 static Namespace *namespace_GetNamespaceFormResolver(struct pwart_symbol_resolver *_this){
     return (Namespace *)_this;
 }
@@ -59,20 +61,34 @@ extern pwart_namespace pwart_namespace_new(){
     return ns;
 }
 
+//Take the module out of the namespace. The list may change while the host module is told.
+static char *namespace_RemoveEntry(struct pwart_named_module *m){
+    struct pwart_named_module removed=*m;
+    m->type=module_type_null;
+    switch(removed.type){
+        case PWART_MODULE_TYPE_HOST_MODULE:
+            if(removed.val.host->on_detached!=NULL){
+                removed.val.host->on_detached(removed.val.host);
+            }
+            break;
+        case PWART_MODULE_TYPE_WASM_MODULE:
+            ReturnIfErr(pwart_free_module_state(removed.val.wasm));
+            break;
+    }
+    return NULL;
+}
+
 extern char *pwart_namespace_delete(pwart_namespace ns){
     Namespace *n=(Namespace *)ns;
     int i=0;
-    for(i=0;i<n->mods->len;i++){
+    while(i<n->mods->len){
         struct pwart_named_module *m=dynarr_get(n->mods,struct pwart_named_module,i);
-        switch(m->type){
-            case PWART_MODULE_TYPE_HOST_MODULE:
-                if(m->val.host->on_detached!=NULL){
-                    m->val.host->on_detached(m->val.host);
-                }
-                break;
-            case PWART_MODULE_TYPE_WASM_MODULE:
-                ReturnIfErr(pwart_free_module_state(m->val.wasm));
-                break;
+        if(m->type==module_type_null){
+            i++;
+        }else{
+            //start over, modules may be defined while a host module is told.
+            ReturnIfErr(namespace_RemoveEntry(m));
+            i=0;
         }
     }
     dynarr_free(&n->mods);
@@ -88,7 +104,8 @@ extern struct pwart_named_module *pwart_namespace_find_module(pwart_namespace ns
     int i=0;
     for(i=0;i<n->mods->len;i++){
         struct pwart_named_module *m=dynarr_get(n->mods,struct pwart_named_module,i);
-        if(strcmp(m->name,name)==0){
+        //a removed entry keeps its place until it is defined again.
+        if(m->type!=module_type_null && strcmp(m->name,name)==0){
             return m;
         }
     }
@@ -98,17 +115,7 @@ extern struct pwart_named_module *pwart_namespace_find_module(pwart_namespace ns
 extern char *pwart_namespace_remove_module(pwart_namespace ns,const char *name){
     struct pwart_named_module *m=pwart_namespace_find_module(ns,name);
     if(m!=NULL){
-        switch(m->type){
-            case PWART_MODULE_TYPE_HOST_MODULE:
-                if(m->val.host->on_detached!=NULL){
-                    m->val.host->on_detached(m->val.host);
-                }
-                break;
-            case PWART_MODULE_TYPE_WASM_MODULE:
-                ReturnIfErr(pwart_free_module_state(m->val.wasm));
-                break;
-        }
-        m->type=PWART_MODULE_TYPE_NULL;
+        ReturnIfErr(namespace_RemoveEntry(m));
     }
     return NULL;
 }
@@ -117,13 +124,20 @@ extern char *pwart_namespace_remove_module(pwart_namespace ns,const char *name){
 extern char *pwart_namespace_define_module(pwart_namespace ns,struct pwart_named_module *mod){
     Namespace *n=(Namespace *)ns;
     struct pwart_named_module *m;
-    m=pwart_namespace_find_module(ns,mod->name);
-    if(m!=NULL){
-        pwart_namespace_remove_module(ns,m->name);
-    }else{
+    struct pwart_named_module newmod=*mod;
+    int i=0;
+    //a host module that is told of its removal may define modules itself.
+    while(pwart_namespace_find_module(ns,newmod.name)!=NULL){
+        ReturnIfErr(pwart_namespace_remove_module(ns,newmod.name));
+    }
+    for(i=0;i<n->mods->len;i++){
+        m=dynarr_get(n->mods,struct pwart_named_module,i);
+        if(m->type==module_type_null)break;
+    }
+    if(i==n->mods->len){
         m=dynarr_push_type(&n->mods,struct pwart_named_module);
     }
-    memmove(m,mod,sizeof(struct pwart_named_module));
+    *m=newmod;
     switch(m->type){
         case PWART_MODULE_TYPE_HOST_MODULE:
         m->val.host->namespace2=ns;
-- 
2.43.0


From dd591bcecbc499aee5a6981be6241b4c10889afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:57 +0000
Subject: [PATCH 26/68] fix: keep a copy of the names of modules

---
 pwart/namespace.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pwart/namespace.c b/pwart/namespace.c
index c8024f7..46698cf 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -65,6 +65,7 @@ extern pwart_namespace pwart_namespace_new(){
 static char *namespace_RemoveEntry(struct pwart_named_module *m){
     struct pwart_named_module removed=*m;
     m->type=module_type_null;
+    m->name=NULL;
     switch(removed.type){
         case PWART_MODULE_TYPE_HOST_MODULE:
             if(removed.val.host->on_detached!=NULL){
@@ -75,6 +76,7 @@ static char *namespace_RemoveEntry(struct pwart_named_module *m){
             ReturnIfErr(pwart_free_module_state(removed.val.wasm));
             break;
     }
+    wa_free((void *)removed.name);
     return NULL;
 }
 
@@ -113,6 +115,7 @@ extern struct pwart_named_module *pwart_namespace_find_module(pwart_namespace ns
 }
 
 extern char *pwart_namespace_remove_module(pwart_namespace ns,const char *name){
+    //name may be the name in the list, so it's not used any more once the module is removed.
     struct pwart_named_module *m=pwart_namespace_find_module(ns,name);
     if(m!=NULL){
         ReturnIfErr(namespace_RemoveEntry(m));
@@ -126,6 +129,10 @@ extern char *pwart_namespace_define_module(pwart_namespace ns,struct pwart_named
     struct pwart_named_module *m;
     struct pwart_named_module newmod=*mod;
     int i=0;
+    char *name=wa_malloc(strlen(mod->name)+1);
+    if(name==NULL){return "out of memory";}
+    strcpy(name,mod->name);
+    newmod.name=name;
     //a host module that is told of its removal may define modules itself.
     while(pwart_namespace_find_module(ns,newmod.name)!=NULL){
         ReturnIfErr(pwart_namespace_remove_module(ns,newmod.name));
@@ -172,7 +179,12 @@ extern pwart_module_state *pwart_namespace_define_wasm_module(pwart_namespace ns
     mod.name=name;
     mod.type=PWART_MODULE_TYPE_WASM_MODULE;
     mod.val.wasm=state;
-    pwart_namespace_define_module(ns,&mod);
+    err=pwart_namespace_define_module(ns,&mod);
+    if(err!=NULL){
+        if(err_msg!=NULL)*err_msg=err;
+        pwart_free_module_state(state);
+        return NULL;
+    }
     return state;
 }
 
-- 
2.43.0


From 9aaaee0f15d84eba69465c7e231698c915331b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:34 +0000
Subject: [PATCH 27/68] fix: allow branches to the outermost label of a
 function

---
 pwart/opgen_ctl.c | 32 ++++++++++++++++++++++++++++++++
 pwart/wagen.c     |  1 +
 2 files changed, 33 insertions(+)

diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index eaea1ab..82d8c0a 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -120,8 +120,15 @@ static void opgen_GenEnd(ModuleCompiler *m) {
   #endif
 }
 
+static void opgen_GenReturn(ModuleCompiler *m);
+
 static void opgen_GenBr(ModuleCompiler *m, int32_t depth) {
   Block *block;
+  if(dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth)->block_type==0x00){
+    //branch out of the function.
+    opgen_GenReturn(m);
+    return;
+  }
   pwart_EmitSaveStackAll(m);
   #if PWART_DEBUG_RUNTIME_PROBE
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
@@ -152,6 +159,21 @@ static void opgen_GenBrIf(ModuleCompiler *m, int32_t depth) {
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
+  if (block->block_type == 0x00) {
+    //branch out of the function, return unless the condition is false.
+    struct sljit_jump *jump;
+    if (sv->jit_type == SVT_CMP) {
+      jump = sljit_emit_jump(m->jitc, sv->val.cmp.flag^0x1);
+    } else {
+      pwart_EmitStackValueLoadReg(m, sv);
+      jump = sljit_emit_cmp(m->jitc, SLJIT_EQUAL, sv->val.op, sv->val.opw,
+                            SLJIT_IMM, 0);
+    }
+    m->sp--;
+    pwart_EmitFuncReturn(m);
+    sljit_set_label(jump, sljit_emit_label(m->jitc));
+    return;
+  }
   if (sv->jit_type == SVT_CMP) {
     if (block->br_label != NULL) {
       sljit_set_label(sljit_emit_jump(m->jitc, sv->val.cmp.flag),
@@ -219,6 +241,16 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
         sljit_emit_jump(m->jitc, SLJIT_JUMP);
   }
   m->sp--;
+  block = dynarr_get(m->blocks, Block, 0);
+  if (block->br_jump->len > 0) {
+    //branches out of the function, nothing else reaches this place.
+    struct sljit_label *label = sljit_emit_label(m->jitc);
+    for (a = 0; a < block->br_jump->len; a++) {
+      sljit_set_label(*dynarr_get(block->br_jump, struct sljit_jump *, a), label);
+    }
+    block->br_jump->len = 0;
+    pwart_EmitFuncReturn(m);
+  }
 }
 
 static void opgen_GenReturn(ModuleCompiler *m) {
diff --git a/pwart/wagen.c b/pwart/wagen.c
index bbb5020..3a7074f 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -339,6 +339,7 @@ static char *pwart_GenCode(ModuleCompiler *m) {
 
   block = dynarr_push_type(&m->blocks, Block);
   block->block_type = 0x00;
+  dynarr_init(&block->br_jump, sizeof(struct sljit_jump *));
   m->eof=0;
   m->block_returned=0;
 
-- 
2.43.0


From ea3f0ef191bdcb9a2990bc9c8f075f5349152731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:09 +0000
Subject: [PATCH 28/68] fix: reject instructions of unknown length before
 reading past them

---
 pwart/wagen.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pwart/wagen.c b/pwart/wagen.c
index 3a7074f..6ad2c97 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -107,6 +107,18 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
 
 
 
+// Whether the length of the instruction at "pos" is known.
+static int wasm_IsKnownInstruction(uint8_t *bytes, uint32_t pos) {
+  uint32_t opcode = bytes[pos];
+  if (opcode == 0xfc) {
+    uint32_t opc2 = bytes[pos + 1];
+    return opc2 <= 7 || opc2 == 0xa || opc2 == 0xb || (opc2 >= 0xe && opc2 <= 0x11);
+  }
+  return opcode <= 0x05 || (opcode >= 0x0b && opcode <= 0x13) || (opcode >= 0x1a && opcode <= 0x1c) ||
+         (opcode >= 0x20 && opcode <= 0x26) || (opcode >= 0x28 && opcode <= 0xc4) ||
+         (opcode >= 0xd0 && opcode <= 0xd2);
+}
+
 static char *pwart_PrepareFunc(ModuleCompiler *m) {
   uint8_t *bytes = m->bytes;
   StackValue *stack = m->stack;
@@ -148,6 +160,8 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
   while (!eof && m->pc < m->byte_count) {
     opcode = bytes[m->pc];
     cur_pc = m->pc;
+    // Bytes after it can't be told apart.
+    if(!wasm_IsKnownInstruction(bytes, cur_pc)){return "unrecognized opcode";}
     m->pc += 1;
 
     #if DEBUG_BUILD
-- 
2.43.0


From b443cf3ad26b0c6bddb1e3d993bb9869775d6c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 29/68] fix: reject ref_from_index with a memory index that is
 not constant instead of aborting

---
 pwart/def.h        |  2 +-
 pwart/opgen_ctl.c  | 10 ++++++----
 pwart/opgen_misc.c | 23 +++++++++++++++--------
 3 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index a451ded..3c589f1 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -557,7 +557,7 @@ static void opgen_GenBaseAddressRegForTable(ModuleCompiler *m,uint32_t tabidx);
 static void opgen_GenBaseAddressReg(ModuleCompiler *m,uint32_t midx);
 static char *opgen_GenNumOp(ModuleCompiler *m, int opcode);
 //if fn is stub/inline function, generate native code and return 1, else return 0.
-static int pwart_CheckAndGenStubFunction(ModuleCompiler *m,WasmFunctionEntry fn);
+static char *pwart_CheckAndGenStubFunction(ModuleCompiler *m,WasmFunctionEntry fn,int *generated);
 static void opgen_GenRefNull(ModuleCompiler *m, int32_t typeidx);
 static void opgen_GenI32Const(ModuleCompiler *m, uint32_t c);
 static void opgen_GenI64Const(ModuleCompiler *m, uint64_t c);
diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index 82d8c0a..292785c 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -263,18 +263,20 @@ static void opgen_GenReturn(ModuleCompiler *m) {
   m->block_returned=1;
 }
 
-static void opgen_GenCall(ModuleCompiler *m, int32_t fidx, int callReturn) {
+static char *opgen_GenCall(ModuleCompiler *m, int32_t fidx, int callReturn) {
   WasmFunction *fn;
-  int a;
+  int a,generated;
   StackValue *sv;
   Type *type;
   fn = dynarr_get(m->functions, WasmFunction, fidx);
-  if(!pwart_CheckAndGenStubFunction(m,fn->func_ptr)){
+  ReturnIfErr(pwart_CheckAndGenStubFunction(m,fn->func_ptr,&generated));
+  if(!generated){
     a = pwart_GetFreeReg(m, RT_BASE, 0);
     sljit_emit_op1(m->jitc, SLJIT_MOV, a, 0, SLJIT_IMM,(sljit_uw)(m->context->funcentries+fidx));
     type = dynarr_get(m->types, Type, fn->tidx);
     pwart_EmitCallFunc2(m, type, SLJIT_MEM1(a), 0,callReturn);
   }
+  return NULL;
 }
 
 static void opgen_GenCallIndirect(ModuleCompiler *m, int32_t typeidx,
@@ -383,7 +385,7 @@ static char *opgen_GenCtlOp(ModuleCompiler *m, int opcode) {
   case WASMOPC_call:
   case WASMOPC_return_call: 
     fidx = read_LEB(bytes, &m->pc, 32);
-    opgen_GenCall(m, fidx,opcode==WASMOPC_return_call);
+    ReturnIfErr(opgen_GenCall(m, fidx,opcode==WASMOPC_return_call));
     break;
   case WASMOPC_call_indirect:
   case WASMOPC_return_call_indirect:
diff --git a/pwart/opgen_misc.c b/pwart/opgen_misc.c
index 8334797..3240fc1 100644
--- a/pwart/opgen_misc.c
+++ b/pwart/opgen_misc.c
@@ -170,34 +170,41 @@ static char *opgen_GenMiscOp(ModuleCompiler *m, int opcode) {
 }
 
 
-//if fn is stub/inline function, generate native code and return 1, else return 0.
-static int pwart_CheckAndGenStubFunction(ModuleCompiler *m,WasmFunctionEntry fn){
+//if fn is stub/inline function, generate native code and set generated to 1, else set generated to 0.
+static char *pwart_CheckAndGenStubFunction(ModuleCompiler *m,WasmFunctionEntry fn,int *generated){
   int i1;
+  *generated=1;
   pwart_get_builtin_symbols(&i1);
   if(fn==pwart_InlineFuncList.get_self_runtime_context){
     opgen_GenRefConst(m,m->context);
-    return 1;
+    return NULL;
   }else if(fn==pwart_InlineFuncList.ref_from_i64){
     if(m->target_ptr_size==32){
       opgen_GenConvertOp(m,WASMOPC_i32_wrap_i64);
     }
     m->stack[m->sp].wasm_type=WVT_REF;
-    return 1;
+    return NULL;
   }else if(fn==pwart_InlineFuncList.i64_from_ref){
     if(m->target_ptr_size==32){
       m->stack[m->sp].wasm_type=WVT_I32;
       opgen_GenConvertOp(m,WASMOPC_i64_extend_i32_u);
     }
     m->stack[m->sp].wasm_type=WVT_I64;
-    return 1;
+    return NULL;
   }else if(fn==pwart_InlineFuncList.ref_from_index){
     StackValue *sv=m->stack+m->sp-1;
-    SLJIT_ASSERT((sv->jit_type==SVT_GENERAL) && (sv->val.op==SLJIT_IMM));
+    if(m->sp<1 || sv->jit_type!=SVT_GENERAL || sv->val.op!=SLJIT_IMM){
+      return "the memory index of ref_from_index must be constant";
+    }
+    if(sv->val.opw<0 || sv->val.opw>=m->context->memories->len){
+      return "no such memory for ref_from_index";
+    }
     opgen_GenBaseAddressReg(m,sv->val.opw);
     stackvalue_EmitSwapTopTwoValue(m);
     m->sp--;
-    return 1;
+    return NULL;
   }
-  return 0;
+  *generated=0;
+  return NULL;
 }
 #endif
\ No newline at end of file
-- 
2.43.0


From deec8f2d0c79e94872cb8f2cb88b77ddaa74295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 30/68] fix: bind builtin imports by kind as well as by name

---
 pwart/modparser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 401854e..facd050 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -232,7 +232,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                     int arrlen=0,i1=0;
                     struct pwart_named_symbol *builtin=pwart_get_builtin_symbols(&arrlen);
                     for(i1=0;i1<arrlen;i1++){
-                        if(!strcmp(builtin[i1].name,import_field)){
+                        if(builtin[i1].kind==external_kind && !strcmp(builtin[i1].name,import_field)){
                             switch(external_kind){
                                 case PWART_KIND_FUNCTION:
                                 val=builtin[i1].val.fn;
-- 
2.43.0


From 5260d0880e7e10489db5bf03f86cf1d9941dc6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 31/68] fix: regex: characters above 0x7f in a pattern never
 matched their input

---
 sljit/regex_src/regexJIT.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 3f95469..73694f6 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -401,6 +401,14 @@ struct compiler_common {
 	struct sljit_jump **range_jump_list;
 };
 
+/* Value of a character as it is seen by the generated code, which
+   loads the characters without sign extension. */
+#ifdef REGEX_USE_8BIT_CHARS
+#define CHAR_VALUE(chr) ((int)(sljit_u8)(chr))
+#else
+#define CHAR_VALUE(chr) ((int)(chr))
+#endif
+
 static const regex_char_t* decode_number(const regex_char_t *regex_string, int length, int *result)
 {
 	int value = 0;
@@ -666,7 +674,7 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 {
 	struct stack* stack = &compiler_common->stack;
 	const regex_char_t *base_from = regex_string;
-	regex_char_t left_char, right_char, tmp_char;
+	int left_char, right_char, tmp_char;
 
 	length--;
 	regex_string++;
@@ -708,13 +716,13 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 			break;
 
 		if (*regex_string != '\\')
-			left_char = *regex_string;
+			left_char = CHAR_VALUE(*regex_string);
 		else {
 			regex_string++;
 			length--;
 			if (length == 0)
 				return -2;
-			left_char = *regex_string;
+			left_char = CHAR_VALUE(*regex_string);
 		}
 		regex_string++;
 		length--;
@@ -725,13 +733,13 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 			length--;
 
 			if (*regex_string != '\\')
-				right_char = *regex_string;
+				right_char = CHAR_VALUE(*regex_string);
 			else {
 				regex_string++;
 				length--;
 				if (length == 0)
 					return -2;
-				right_char = *regex_string;
+				right_char = CHAR_VALUE(*regex_string);
 			}
 			regex_string++;
 			length--;
@@ -801,7 +809,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 			regex_string++;
 			if (length == 0)
 				return REGEX_INVALID_REGEX;
-			if (stack_push(stack, type_char, *regex_string))
+			if (stack_push(stack, type_char, CHAR_VALUE(*regex_string)))
 				return REGEX_MEMORY_ERROR;
 			begin = 0;
 			compiler_common->dfa_size++;
@@ -901,7 +909,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 				compiler_common->flags |= REGEX_MATCH_END;
 				break;
 			}
-			if (stack_push(stack, type_char, *regex_string))
+			if (stack_push(stack, type_char, CHAR_VALUE(*regex_string)))
 				return REGEX_MEMORY_ERROR;
 			begin = 0;
 			compiler_common->dfa_size++;
-- 
2.43.0


From 9f4d6665fc4632ad022586689e00dff123a64d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 32/68] fix: regex: ^ and $ of a line search applied to one
 alternative only

---
 sljit/regex_src/regexJIT.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 73694f6..571468f 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -802,6 +802,12 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 		/* Begin intentionally kept as 1. */
 	}
 
+	if (compiler_common->flags & REGEX_NEWLINE) {
+		/* The new-line searches belong to all alternatives. */
+		if (stack_push(stack, type_open_br, 0))
+			return REGEX_MEMORY_ERROR;
+	}
+
 	while (length > 0) {
 		switch (*regex_string) {
 		case '\\' :
@@ -922,6 +928,11 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 	if (depth != 0)
 		return REGEX_INVALID_REGEX;
 
+	if (compiler_common->flags & REGEX_NEWLINE) {
+		if (stack_push(stack, type_close_br, 0))
+			return REGEX_MEMORY_ERROR;
+	}
+
 	if ((compiler_common->flags & (REGEX_MATCH_END | REGEX_NEWLINE)) == (REGEX_MATCH_END | REGEX_NEWLINE)) {
 		/* Replace REGEX_MATCH_END flag to REGEX_FAKE_MATCH_END */
 		compiler_common->flags &= ~REGEX_MATCH_END;
-- 
2.43.0


From ee95d0ecda2c28e2ba5ac30e952854f4e82f936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 33/68] fix: regex: non-greedy search for an empty match at the
 end skipped the beginning

---
 sljit/regex_src/regexJIT.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 571468f..910a261 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -2270,7 +2270,7 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 
 		EMIT_OP1(SLJIT_MOV, SLJIT_MEM1(SLJIT_S1), SLJIT_OFFSETOF(struct regex_match, index), SLJIT_IMM, !(compiler_common.flags & REGEX_FAKE_MATCH_BEGIN) ? 1 : 2);
 
-		if (!(compiler_common.flags & REGEX_MATCH_NON_GREEDY) || empty_match_id == -1) {
+		if (!(compiler_common.flags & REGEX_MATCH_NON_GREEDY) || (compiler_common.flags & REGEX_MATCH_END) || empty_match_id == -1) {
 			/* The else is a really rare event, so we still generate an empty function instead of a runtime pointer check. */
 			SLJIT_ASSERT(R_CURR_STATE == SLJIT_S0);
 			if (!(compiler_common.flags & REGEX_MATCH_BEGIN)) {
-- 
2.43.0


From 59b11ab5c87ed9ccd276c80a5af54588ee49775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 34/68] fix: regex: a fully anchored match was reported
 although more input followed

---
 sljit/regex_src/regexJIT.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 910a261..0e558be 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -2188,6 +2188,11 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 			EMIT_CMP(jump, SLJIT_NOT_EQUAL, R_NEXT_HEAD, 0, SLJIT_IMM, 0);
 			sljit_set_label(jump, start_label);
 		}
+		else if (compiler_common.flags & REGEX_MATCH_END) {
+			/* The match which ends here is dropped if another character follows. */
+			EMIT_CMP(jump, SLJIT_NOT_EQUAL, SLJIT_MEM1(R_CURR_STATE), TERM_REL_OFFSET_OF(0, 1), SLJIT_IMM, -1);
+			sljit_set_label(jump, start_label);
+		}
 		EMIT_OP1(SLJIT_MOV, SLJIT_MEM1(R_REGEX_MATCH), SLJIT_OFFSETOF(struct regex_match, fast_quit), SLJIT_IMM, 1);
 	}
 
-- 
2.43.0


From a78fbef16dfa6c6aea46ec00d4f3df9e5004a461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 35/68] fix: regex: resetting a match kept the end state of the
 previous text

---
 sljit/regex_src/regexJIT.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 0e558be..c40bd84 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -2440,6 +2440,8 @@ void regex_reset_match(struct regex_match *match)
 			current_ptr[ind] = -1;
 		} while (current != 0);
 	}
+	/* The end state is not part of the chain. */
+	match->current[1] = -1;
 	match->head = machine->u.call_init(match->current, match);
 }
 
-- 
2.43.0


From 9d5c3e10714ba38b3a06d4fc26999dbf493f2a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 36/68] fix: regex: line end at the end of input ignored an
 earlier or longer match

---
 sljit/regex_src/regexJIT.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index c40bd84..d63005c 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -2458,7 +2458,7 @@ void regex_continue_match(struct regex_match *match, const regex_char_t *input_s
 int regex_get_result(struct regex_match *match, int *end, int *id)
 {
 	int flags = match->machine->flags;
-	sljit_sw no_states;
+	sljit_sw no_states, begin;
 
 	*end = (int)match->best_end;
 	*id = (int)match->best_id;
@@ -2467,19 +2467,27 @@ int regex_get_result(struct regex_match *match, int *end, int *id)
 
 	if (flags & REGEX_FAKE_MATCH_END) {
 		SLJIT_ASSERT(!(flags & (REGEX_MATCH_BEGIN | REGEX_MATCH_END)));
-		if (match->best_begin != -1)
-			return (int)match->best_begin;
-
 		no_states = match->machine->no_states;
 		if (match->current[no_states + 1] == -1)
-			return -1;
+			return (int)match->best_begin;
+
+		/* The end of the input also ends a match. All active states
+		   start from the last position during fast forward. */
+		if (!match->fast_forward)
+			begin = match->current[no_states + 2];
+		else
+			begin = match->index - (!(flags & REGEX_FAKE_MATCH_BEGIN) ? 1 : 2);
+		if (match->best_begin != -1 && (match->best_begin < begin
+				|| (match->best_begin == begin && (flags & REGEX_MATCH_NON_GREEDY))))
+			return (int)match->best_begin;
+
 		if (flags & REGEX_ID_CHECK)
 			*id = (int)match->current[no_states + 3];
 		if (!(flags & REGEX_FAKE_MATCH_BEGIN))
 			*end = (int)match->index - 1;
 		else
 			*end = (int)match->index - 2;
-		return (int)match->current[no_states + 2];
+		return (int)begin;
 	}
 	else {
 		/* Check the status of the last code. */
-- 
2.43.0


From f1df9fe82a62afe2906ec42f105f06c6bae40b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 37/68] fix: regex: out of memory inside a {a,b} repetition was
 taken for success

---
 sljit/regex_src/regexJIT.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index d63005c..a7faee5 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -487,9 +487,9 @@ static int iterate(struct stack *stack, int min, int max)
 		stack_clone(&it, stack);
 		/* and put an empty bracket expression instead of it. */
 		if (stack_push(stack, type_open_br, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 		if (stack_push(stack, type_close_br, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 		return len;
 	}
 
@@ -523,7 +523,7 @@ static int iterate(struct stack *stack, int min, int max)
 				if (stack_push_copy(stack, count, count))
 					return -1;
 				if (stack_push(stack, type_qestion_mark, 0))
-					return REGEX_MEMORY_ERROR;
+					return -1;
 				count++;
 				max--;
 			}
@@ -533,7 +533,7 @@ static int iterate(struct stack *stack, int min, int max)
 			max--;
 			count++;
 			if (stack_push(stack, type_qestion_mark, 0))
-				return REGEX_MEMORY_ERROR;
+				return -1;
 		}
 
 		while (max > 0) {
@@ -554,12 +554,12 @@ static int iterate(struct stack *stack, int min, int max)
 		}
 
 		if (stack_push(stack, type_plus_sign, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 	}
 
 	/* Close the opened bracket. */
 	if (stack_push(stack, type_close_br, 0))
-		return REGEX_MEMORY_ERROR;
+		return -1;
 
 	return len;
 }
-- 
2.43.0


From 6f89e47335b3537b34e8659eff63d5061ef7dacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:43 +0000
Subject: [PATCH 38/68] fix: sljit x86: binary operation whose second source
 address uses the destination register

The destination was overwritten with the first source before the second source was loaded through it.
---
 sljit/sljit_src/sljitNativeX86_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 76e9a76..5e1e2d6 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2109,7 +2109,7 @@ static sljit_s32 emit_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst)) {
+	if (FAST_IS_REG(dst) && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
@@ -2182,7 +2182,7 @@ static sljit_s32 emit_non_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst) && dst != src2) {
+	if (FAST_IS_REG(dst) && dst != src2 && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
-- 
2.43.0


From 77bd3aec797c3855c04d6aa1517851f2257bc661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:43 +0000
Subject: [PATCH 39/68] fix: sljit x86: multiplication lost when the second
 source address uses the destination register

The product was computed in a temporary register and only stored when the destination is in memory.
---
 sljit/sljit_src/sljitNativeX86_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 5e1e2d6..9c27854 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2311,7 +2311,7 @@ static sljit_s32 emit_mul(struct sljit_compiler *compiler,
 		FAIL_IF(emit_groupf(compiler, IMUL_r_rm, dst_r, src2, src2w));
 	}
 
-	if (dst & SLJIT_MEM)
+	if (dst_r != dst)
 		EMIT_MOV(compiler, dst, dstw, TMP_REG1, 0);
 
 	return SLJIT_SUCCESS;
-- 
2.43.0


From 993462174397d39bb17599c0eed364838d63e56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:43 +0000
Subject: [PATCH 40/68] fix: sljit x86: shift amount with a large displacement
 corrupts ecx

Computing the address overwrote the temporary register that kept the original value of ecx.
---
 sljit/sljit_src/sljitNativeX86_common.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 9c27854..3c3b867 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2615,14 +2615,18 @@ static sljit_s32 emit_shift(struct sljit_compiler *compiler,
 	EMIT_MOV(compiler, TMP_REG1, 0, src1, src1w);
 #if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
 	EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_PREF_SHIFT_REG, 0);
+	EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
 #else /* !SLJIT_CONFIG_X86_32 */
+	/* Loading src2 may need TMP_REG2 for computing its address. */
+	EMIT_MOV(compiler, TMP_REG2, 0, src2, src2w);
 	mode32 = compiler->mode32;
 	compiler->mode32 = 0;
-	EMIT_MOV(compiler, TMP_REG2, 0, SLJIT_PREF_SHIFT_REG, 0);
+	inst = emit_x86_instruction(compiler, 1, SLJIT_PREF_SHIFT_REG, 0, TMP_REG2, 0);
+	FAIL_IF(!inst);
+	*inst = XCHG_r_rm;
 	compiler->mode32 = mode32;
 #endif /* SLJIT_CONFIG_X86_32 */
 
-	EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
 	inst = emit_x86_instruction(compiler, 1 | EX86_SHIFT_INS, SLJIT_PREF_SHIFT_REG, 0, TMP_REG1, 0);
 	FAIL_IF(!inst);
 	inst[1] |= mode;
-- 
2.43.0


From b73d93cccc2ebcdc0594152c3c03af7554226dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:43 +0000
Subject: [PATCH 41/68] fix: sljit x86: shift into by an immediate zero must
 still move the source to the destination

---
 sljit/sljit_src/sljitNativeX86_common.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 3c3b867..3acb529 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2865,8 +2865,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		src3w &= (op & SLJIT_32) ? 0x1f : 0x3f;
 #endif /* SLJIT_CONFIG_X86_32 */
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			CHECK_EXTRA_REGS(src1_reg, src1w, (void)0);
+			return emit_mov(compiler, dst_reg, dstw, src1_reg, src1w);
+		}
 	}
 
 	is_left = (GET_OPCODE(op) == SLJIT_SHL || GET_OPCODE(op) == SLJIT_MSHL);
-- 
2.43.0


From b961ff2ca2976a6bd6f63d72d344d7ece77e5790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 42/68] fix: sljit x86: shift into whose amount address uses
 the destination register

---
 sljit/sljit_src/sljitNativeX86_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 3acb529..5123dbf 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2927,7 +2927,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		move_src1 = 0;
 #if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
 		if (dst_reg != src1_reg) {
-			if (dst_reg != src3) {
+			if (dst_reg != src3 && !ADDRESSING_DEPENDS_ON(src3, dst_reg)) {
 				EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 				src1_reg = dst_reg;
 				src1w = 0;
@@ -2951,7 +2951,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 				restore_sp4 = src1_reg;
 			}
 		} else if (dst_reg != src1_reg) {
-			if (dst_reg != src3) {
+			if (dst_reg != src3 && !ADDRESSING_DEPENDS_ON(src3, dst_reg)) {
 				EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 				src1_reg = dst_reg;
 				src1w = 0;
-- 
2.43.0


From e40b97207b99d6ab0a44180a016c24ce52b0efaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 43/68] fix: sljit x86: shift into with the source in ecx and
 the amount in the destination register

---
 sljit/sljit_src/sljitNativeX86_common.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 5123dbf..d24f4e7 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2981,6 +2981,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		}
 
 		if (move_src1) {
+			/* The ecx register contains src3 now, its original value is saved. */
+			if (src1_reg == SLJIT_PREF_SHIFT_REG)
+				src1_reg = (restore_ecx == 1) ? TMP_REG1 : SLJIT_MEM1(SLJIT_SP);
 			EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 			src1_reg = dst_reg;
 			src1w = 0;
-- 
2.43.0


From 710a44afa9aaa0dca19e5eee08336ecb83308957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 44/68] fix: sljit x86: unchecked instruction buffer in float
 negation and float return

---
 sljit/sljit_src/sljitNativeX86_32.c     | 1 +
 sljit/sljit_src/sljitNativeX86_common.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/sljit/sljit_src/sljitNativeX86_32.c b/sljit/sljit_src/sljitNativeX86_32.c
index f5f5cc2..d7d6cae 100644
--- a/sljit/sljit_src/sljitNativeX86_32.c
+++ b/sljit/sljit_src/sljitNativeX86_32.c
@@ -1180,6 +1180,7 @@ static SLJIT_INLINE sljit_s32 emit_fmov_before_return(struct sljit_compiler *com
 	}
 
 	inst = emit_x86_instruction(compiler, 1 | EX86_SSE2_OP1, 0, 0, src, srcw);
+	FAIL_IF(!inst);
 	*inst = (op & SLJIT_32) ? FLDS : FLDL;
 
 	return SLJIT_SUCCESS;
diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index d24f4e7..6a09679 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -3310,6 +3310,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fop1(struct sljit_compiler *compil
 		FAIL_IF(emit_groupf(compiler, PCMPEQD_x_xm | EX86_PREF_66 | EX86_SSE2, dst_r, dst_r, 0));
 
 		inst = emit_x86_instruction(compiler, 2 | EX86_PREF_66 | EX86_SSE2_OP2, 0, 0, dst_r, 0);
+		FAIL_IF(!inst);
 		inst[0] = GROUP_0F;
 		/* Same as PSRLD_x / PSRLQ_x */
 		inst[1] = (op & SLJIT_32) ? PSLLD_x_i8 : PSLLQ_x_i8;
-- 
2.43.0


From 71d9dbb750dbdebd23188c3aaacfc0264699caa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:09 +0000
Subject: [PATCH 45/68] fix: sljit: restored compiler rejects vector registers
 and float registers in argument checks

The register counts used only by the argument checks were not serialized.
---
 sljit/sljit_src/sljitSerialize.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/sljit/sljit_src/sljitSerialize.c b/sljit/sljit_src/sljitSerialize.c
index 042cc18..c5423a1 100644
--- a/sljit/sljit_src/sljitSerialize.c
+++ b/sljit/sljit_src/sljitSerialize.c
@@ -97,6 +97,12 @@ struct sljit_serialized_debug_info {
 	sljit_sw last_flags;
 	sljit_s32 last_return;
 	sljit_s32 logical_local_size;
+	sljit_s32 vscratches;
+	sljit_s32 vsaveds;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	sljit_s32 real_fscratches;
+	sljit_s32 real_fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 };
 
 struct sljit_serialized_label {
@@ -309,6 +315,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_uw* sljit_serialize_compiler(struct sljit_compile
 		serialized_debug_info->last_flags = compiler->last_flags;
 		serialized_debug_info->last_return = compiler->last_return;
 		serialized_debug_info->logical_local_size = compiler->logical_local_size;
+		serialized_debug_info->vscratches = compiler->vscratches;
+		serialized_debug_info->vsaveds = compiler->vsaveds;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+		serialized_debug_info->real_fscratches = compiler->real_fscratches;
+		serialized_debug_info->real_fsaveds = compiler->real_fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 		serialized_compiler->cpu_type |= SLJIT_SERIALIZE_DEBUG;
 #if (defined SLJIT_DEBUG && SLJIT_DEBUG)
 		ptr += sizeof(struct sljit_serialized_debug_info);
@@ -573,6 +585,12 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler->last_flags = (sljit_s32)serialized_debug_info->last_flags;
 	compiler->last_return = serialized_debug_info->last_return;
 	compiler->logical_local_size = serialized_debug_info->logical_local_size;
+	compiler->vscratches = serialized_debug_info->vscratches;
+	compiler->vsaveds = serialized_debug_info->vsaveds;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	compiler->real_fscratches = serialized_debug_info->real_fscratches;
+	compiler->real_fsaveds = serialized_debug_info->real_fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 #endif /* SLJIT_ARGUMENT_CHECKS || SLJIT_DEBUG */
 
 	return compiler;
-- 
2.43.0


From 52021449c295d31a465cd6f74752fcce45a27699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 46/68] fix: file builtins report an error number only when the
 operation failed

---
 pwart/extfunc.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index a082da1..cb65172 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -698,9 +698,12 @@ static void insn_fopen(void *fp){
   _wargref(filename)
   _wargref(mode)
   sp=fp;
+  // errno is only meaningful when the call failed
+  errno=0;
   FILE *f=fopen(filename,mode);
+  int err=f!=NULL?0:errno;
   pwart_rstack_put_ref(&sp,f);
-  pwart_rstack_put_i32(&sp,errno);
+  pwart_rstack_put_i32(&sp,err);
 }
 
 static void insn_fread(void *fp){
@@ -710,9 +713,11 @@ static void insn_fread(void *fp){
   _wargi32(count)
   _wargref(file)
   sp=fp;
+  errno=0;
   uint32_t nread=(uint32_t)fread(buf,size,count,file);
+  int err=nread<count?errno:0;
   pwart_rstack_put_i32(&sp,nread);
-  pwart_rstack_put_i32(&sp,errno);
+  pwart_rstack_put_i32(&sp,err);
 }
 
 static void insn_fwrite(void *fp){
@@ -722,17 +727,20 @@ static void insn_fwrite(void *fp){
   _wargi32(count)
   _wargref(file)
   sp=fp;
+  errno=0;
   uint32_t nwrite=(uint32_t)fwrite(buf,size,count,file);
+  int err=nwrite<count?errno:0;
   pwart_rstack_put_i32(&sp,nwrite);
-  pwart_rstack_put_i32(&sp,errno);
+  pwart_rstack_put_i32(&sp,err);
 }
 
 static void insn_fclose(void *fp){
   void *sp=fp;
   _wargref(file)
   sp=fp;
-  fclose(file);
-  pwart_rstack_put_i32(&sp,errno);
+  errno=0;
+  int err=fclose(file)==0?0:errno;
+  pwart_rstack_put_i32(&sp,err);
 }
 
 static void insn_stdio(void *fp){
-- 
2.43.0


From 3fd111aaaa159a6eac26bb63e29051092048f67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:56 +0000
Subject: [PATCH 47/68] fix: builtin symbols were built lazily without locking

---
 pwart/def.h        |  7 -----
 pwart/extfunc.c    | 13 +++++++++
 pwart/opgen_misc.c |  2 --
 pwart/pwart.c      | 71 ++++++++++++++++++----------------------------
 4 files changed, 41 insertions(+), 52 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index 3c589f1..061af54 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -513,13 +513,6 @@ static char OPERATOR_INFO[][20] = {
 
 #endif
 
-static struct{
-  pwart_wasm_function get_self_runtime_context;
-  pwart_wasm_function ref_from_index;
-  pwart_wasm_function ref_from_i64;
-  pwart_wasm_function i64_from_ref;
-} pwart_InlineFuncList;
-
 #define WASMOPC_i32_wrap_i64 0xa7
 #define WASMOPC_i64_extend_i32_u 0xad
 #define WASMOPC_i32_eqz 0x45
diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index cb65172..86fdcf1 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -750,4 +750,17 @@ static void insn_stdio(void *fp){
   pwart_rstack_put_ref(&sp,stderr);
 }
 
+// Functions that are compiled inline when called
+static const struct{
+  pwart_wasm_function get_self_runtime_context;
+  pwart_wasm_function ref_from_index;
+  pwart_wasm_function ref_from_i64;
+  pwart_wasm_function i64_from_ref;
+} pwart_InlineFuncList={
+  .get_self_runtime_context=(pwart_wasm_function)&insn_get_self_runtime_context,
+  .ref_from_index=(pwart_wasm_function)&insn_ref_from_index,
+  .ref_from_i64=(pwart_wasm_function)&insn_ref_from_i64,
+  .i64_from_ref=(pwart_wasm_function)&insn_i64_from_ref,
+};
+
 #endif
\ No newline at end of file
diff --git a/pwart/opgen_misc.c b/pwart/opgen_misc.c
index 3240fc1..10d1cb3 100644
--- a/pwart/opgen_misc.c
+++ b/pwart/opgen_misc.c
@@ -172,9 +172,7 @@ static char *opgen_GenMiscOp(ModuleCompiler *m, int opcode) {
 
 //if fn is stub/inline function, generate native code and set generated to 1, else set generated to 0.
 static char *pwart_CheckAndGenStubFunction(ModuleCompiler *m,WasmFunctionEntry fn,int *generated){
-  int i1;
   *generated=1;
-  pwart_get_builtin_symbols(&i1);
   if(fn==pwart_InlineFuncList.get_self_runtime_context){
     opgen_GenRefConst(m,m->context);
     return NULL;
diff --git a/pwart/pwart.c b/pwart/pwart.c
index 917c341..b78d532 100644
--- a/pwart/pwart.c
+++ b/pwart/pwart.c
@@ -276,53 +276,38 @@ extern pwart_wasm_function pwart_get_start_function(pwart_module_state m){
     }
 }
 
-static struct dynarr *builtin_symbols=NULL;  //type pwart_named_symbol
 static struct pwart_wasm_memory native_memory={
     .bytes=NULL,.fixed=1,.initial=0x7fffffff,.maximum=0x7fffffff,.pages=0x7fffffff
 };
 
-#define _ADD_BUILTIN_FN(fname) sym=dynarr_push_type(&builtin_symbols,struct pwart_named_symbol); \
-sym->name=#fname; \
-sym->kind=PWART_KIND_FUNCTION;\
-sym->val.fn=pwart_wrap_host_function_c((void *)insn_##fname);
+// Constant, so that threads can use it without locking.
+/*XXX: Once pwart_wasm_function changed, Fix here by using pwart_wrap_host_function_c. */
+#define _BUILTIN_FN(fname) {.name=#fname,.kind=PWART_KIND_FUNCTION,.val={.fn=(pwart_wasm_function)&insn_##fname}},
+static struct pwart_named_symbol builtin_symbols[]={
+    _BUILTIN_FN(version)
+    _BUILTIN_FN(memory_alloc)
+    _BUILTIN_FN(memory_free)
+    _BUILTIN_FN(load_module)
+    _BUILTIN_FN(unload_module)
+    _BUILTIN_FN(import)
+    _BUILTIN_FN(get_self_runtime_context)
+    _BUILTIN_FN(native_index_size)
+    _BUILTIN_FN(ref_from_index)
+    _BUILTIN_FN(ref_copy_bytes)
+    _BUILTIN_FN(ref_string_length)
+    _BUILTIN_FN(ref_from_i64)
+    _BUILTIN_FN(i64_from_ref)
+    _BUILTIN_FN(host_definition)
+    _BUILTIN_FN(fread)
+    _BUILTIN_FN(fwrite)
+    _BUILTIN_FN(fopen)
+    _BUILTIN_FN(fclose)
+    _BUILTIN_FN(stdio)
+    {.name="native_memory",.kind=PWART_KIND_MEMORY,.val={.mem=&native_memory}}
+};
+#undef _BUILTIN_FN
 
 extern struct pwart_named_symbol *pwart_get_builtin_symbols(int *arr_size){
-    if(builtin_symbols==NULL){
-        struct pwart_named_symbol *sym;
-        dynarr_init(&builtin_symbols,sizeof(struct pwart_named_symbol));
-        _ADD_BUILTIN_FN(version)
-        _ADD_BUILTIN_FN(memory_alloc)
-        _ADD_BUILTIN_FN(memory_free)
-        _ADD_BUILTIN_FN(load_module)
-        _ADD_BUILTIN_FN(unload_module)
-        _ADD_BUILTIN_FN(import)
-        _ADD_BUILTIN_FN(get_self_runtime_context)
-        pwart_InlineFuncList.get_self_runtime_context=sym->val.fn;
-        _ADD_BUILTIN_FN(native_index_size)
-        _ADD_BUILTIN_FN(ref_from_index)
-        pwart_InlineFuncList.ref_from_index=sym->val.fn;
-        _ADD_BUILTIN_FN(ref_copy_bytes)
-        _ADD_BUILTIN_FN(ref_string_length)
-        _ADD_BUILTIN_FN(ref_from_i64)
-        pwart_InlineFuncList.ref_from_i64=sym->val.fn;
-        _ADD_BUILTIN_FN(i64_from_ref)
-        pwart_InlineFuncList.i64_from_ref=sym->val.fn;
-
-        _ADD_BUILTIN_FN(host_definition)
-
-        _ADD_BUILTIN_FN(fread)
-        _ADD_BUILTIN_FN(fwrite)
-        _ADD_BUILTIN_FN(fopen)
-        _ADD_BUILTIN_FN(fclose)
-        _ADD_BUILTIN_FN(stdio)
-        
-        sym=dynarr_push_type(&builtin_symbols,struct pwart_named_symbol);
-        sym->name="native_memory";
-        sym->kind=PWART_KIND_MEMORY;
-        sym->val.mem=&native_memory;
-    }
-    *arr_size=builtin_symbols->len;
-    return (struct pwart_named_symbol *)&builtin_symbols->data;
+    *arr_size=sizeof(builtin_symbols)/sizeof(builtin_symbols[0]);
+    return builtin_symbols;
 }
-
-#undef _ADD_BUILTIN_FN
\ No newline at end of file
-- 
2.43.0


From 759686e4b452e6ef4620b7bed62a13e4f5f75f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:48 +0000
Subject: [PATCH 48/68] fix: libuv: started thread got its descriptor as its
 stack

---
 pwart_syslib/libuv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart_syslib/libuv.c b/pwart_syslib/libuv.c
index 82901af..69ebffc 100644
--- a/pwart_syslib/libuv.c
+++ b/pwart_syslib/libuv.c
@@ -53,7 +53,7 @@ static void wasm__uv_wasmthreadentry(void *awt){
     wt->stack=pwart_allocate_stack(64*1024);
     void *sp=wt->stack;
     pwart_rstack_put_i64(&sp,wt->arg);
-    pwart_call_wasm_function(wt->wasmentry,wt);
+    pwart_call_wasm_function(wt->wasmentry,wt->stack);
     pwart_free_stack(wt->stack);
     wa_free(wt);
 }
-- 
2.43.0


From 4f4c4ce4ebdca47eb4cf013e44647a79143df308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:48 +0000
Subject: [PATCH 49/68] fix: libuv: uv_mutex_trylock returned its result past
 its arguments

---
 pwart_syslib/libuv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pwart_syslib/libuv.c b/pwart_syslib/libuv.c
index 69ebffc..e25ac42 100644
--- a/pwart_syslib/libuv.c
+++ b/pwart_syslib/libuv.c
@@ -94,6 +94,7 @@ static void wasm__uv_mutex_trylock(void *fp){
     void *sp=fp;
     _wargref(mut)
     int err=uv_mutex_trylock(mut);
+    sp=fp;
     pwart_rstack_put_i32(&sp,err);
 }
 
@@ -138,6 +139,7 @@ static void wasm__uv_cond_timedwait(void *fp){
     _wargref(mut)
     _wargi64(timeout)
     int r=uv_cond_timedwait(cond,mut,timeout);
+    sp=fp;
     pwart_rstack_put_i32(&sp,r);
 }
 
-- 
2.43.0


From 6df471864c70b043d31b9f861e8aa5ad034f7b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:48 +0000
Subject: [PATCH 50/68] fix: libuv: uv_thread_create reported a refused thread
 as started

---
 pwart_syslib/libuv.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pwart_syslib/libuv.c b/pwart_syslib/libuv.c
index e25ac42..ed71abf 100644
--- a/pwart_syslib/libuv.c
+++ b/pwart_syslib/libuv.c
@@ -43,7 +43,6 @@ static void wasm__uv_dlclose(void *fp){
 }
 
 struct libuv_wasmthread{
-    uv_thread_t uvt;
     pwart_wasm_function wasmentry;
     uint64_t arg;
     void *stack;
@@ -64,7 +63,12 @@ static void wasm__uv_thread_create(void *fp){
     struct libuv_wasmthread *info=wa_malloc(sizeof(struct libuv_wasmthread));
     info->wasmentry=entry;
     info->arg=arg;
-    uv_thread_create(&info->uvt,wasm__uv_wasmthreadentry,info);
+    // "info" is owned (and freed) by the new thread once it has been started.
+    uv_thread_t uvt;
+    if(uv_thread_create(&uvt,wasm__uv_wasmthreadentry,info)!=0){
+        wa_free(info);
+        info=NULL;
+    }
     sp=fp;
     pwart_rstack_put_ref(&sp,info);
 }
-- 
2.43.0


From cb617cb2d8f705ed9b7c83ba2ed8c168aecf5364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:56 +0000
Subject: [PATCH 51/68] fix: wasi: environ calls leaked the environment list
 and ignored its failure

---
 pwart_syslib/libwasi.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pwart_syslib/libwasi.c b/pwart_syslib/libwasi.c
index 5d65337..f6b41ed 100644
--- a/pwart_syslib/libwasi.c
+++ b/pwart_syslib/libwasi.c
@@ -54,7 +54,11 @@ static void wasm__environ_get(void *fp) {
   _wargi32(environment) _wargi32(environ_buf) 
   uv_env_item_t *penv=NULL;
   int envcnt=0;
-  uv_os_environ(&penv,&envcnt);
+  if(uv_os_environ(&penv,&envcnt)!=0){
+    sp = fp;
+    pwart_rstack_put_i32(&sp, UVWASI_ENOMEM);
+    return;
+  }
   char *buf=uwmem->bytes + environ_buf;
   uint32_t *wenv=(uint32_t *)(uwmem->bytes + environment);
   int i;
@@ -69,6 +73,7 @@ static void wasm__environ_get(void *fp) {
     *buf='\0';
     buf+=1;
   }
+  uv_os_free_environ(penv,envcnt);
   sp = fp;
   pwart_rstack_put_i32(&sp, 0);
 }
@@ -77,11 +82,16 @@ static void wasm__environ_sizes_get(void *fp) {
   _wargi32(environ_count) _wargi32(environ_buf_size)
   uv_env_item_t *penv=NULL;
   int envcnt=0;
-  uv_os_environ(&penv,&envcnt);
+  if(uv_os_environ(&penv,&envcnt)!=0){
+    sp = fp;
+    pwart_rstack_put_i32(&sp, UVWASI_ENOMEM);
+    return;
+  }
   int i,size=0;
   for(i=0;i<envcnt;i++){
     size+=strlen(penv[i].name)+strlen(penv[i].value)+2;
   } 
+  uv_os_free_environ(penv,envcnt);
   *(uint32_t *)(uwmem->bytes + environ_count)=envcnt;
   *(uint32_t *)(uwmem->bytes + environ_buf_size)=size;
   sp = fp;
-- 
2.43.0


From 5ee3de6bc974a20e017a7825cc92c7a6260414f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:56 +0000
Subject: [PATCH 52/68] fix: wasi: sock_recv and sock_send took the program's
 vector for a host vector

---
 pwart_syslib/libwasi.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pwart_syslib/libwasi.c b/pwart_syslib/libwasi.c
index f6b41ed..96702c0 100644
--- a/pwart_syslib/libwasi.c
+++ b/pwart_syslib/libwasi.c
@@ -412,8 +412,15 @@ static void wasm__sock_accept(void *fp) {
 static void wasm__sock_recv(void *fp) { 
    void *sp = fp;
   _wargi32(sock) _wargi32(ri_data) _wargi32(ri_data_len) _wargi32(ri_flags)
-      _wargi32(ro_datalen) _wargi32(ro_flags) uvwasi_errno_t err =
-          uvwasi_sock_recv(&uvwc, sock, uwmem->bytes + ri_data, ri_data_len,
+      _wargi32(ro_datalen) _wargi32(ro_flags)
+  uvwasi_iovec_t *iovs2=sp;
+  uint32_t i;
+  for(i=0;i<ri_data_len;i++){
+    iovs2[i].buf=uwmem->bytes+*(uint32_t *)(uwmem->bytes + ri_data + 8*i);
+    iovs2[i].buf_len=*(uint32_t *)(uwmem->bytes + ri_data + 8*i+4);
+  }
+  uvwasi_errno_t err =
+          uvwasi_sock_recv(&uvwc, sock, iovs2, ri_data_len,
                            ri_flags, uwmem->bytes + ro_datalen,
                            uwmem->bytes + ro_flags);
   sp = fp;
@@ -422,8 +429,15 @@ static void wasm__sock_recv(void *fp) {
 static void wasm__sock_send(void *fp) { 
    void *sp = fp;
   _wargi32(sock) _wargi32(si_data) _wargi32(si_data_len) _wargi32(si_flags)
-      _wargi32(so_datalen) uvwasi_errno_t err =
-          uvwasi_sock_send(&uvwc, sock, uwmem->bytes + si_data, si_data_len,
+      _wargi32(so_datalen)
+  uvwasi_ciovec_t *iovs2=sp;
+  uint32_t i;
+  for(i=0;i<si_data_len;i++){
+    iovs2[i].buf=uwmem->bytes+*(uint32_t *)(uwmem->bytes + si_data + 8*i);
+    iovs2[i].buf_len=*(uint32_t *)(uwmem->bytes + si_data + 8*i+4);
+  }
+  uvwasi_errno_t err =
+          uvwasi_sock_send(&uvwc, sock, iovs2, si_data_len,
                            si_flags, uwmem->bytes + so_datalen);
   sp = fp;
   pwart_rstack_put_i32(&sp, err);
-- 
2.43.0


From 55e15c924605fff641940919932abef003870781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:56 +0000
Subject: [PATCH 53/68] fix: wasi: the preopen list of every initialisation
 leaked

---
 pwart_syslib/libwasi.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pwart_syslib/libwasi.c b/pwart_syslib/libwasi.c
index 96702c0..cddb62b 100644
--- a/pwart_syslib/libwasi.c
+++ b/pwart_syslib/libwasi.c
@@ -467,6 +467,7 @@ extern void pwart_wasi_module_set_wasiargs(uint32_t argc, char **argv) {
 
 extern char *pwart_wasi_module_init(){
   uvwasi_options_t init_options;
+  uvwasi_preopen_t preopen;
   uvwasi_errno_t err;
   uvwasi_options_init(&init_options);
   if(uvwcinited){
@@ -482,9 +483,9 @@ extern char *pwart_wasi_module_init(){
   /* init_options.envp = (const char **)environ; */
   init_options.envp=NULL;
   init_options.preopenc = 1;
-  init_options.preopens = wa_malloc(sizeof(uvwasi_preopen_t));
-  init_options.preopens->mapped_path="/";
-  init_options.preopens->real_path=".";
+  preopen.mapped_path="/";
+  preopen.real_path=".";
+  init_options.preopens = &preopen;
   init_options.allocator = NULL;
   init_options.argc = wasiargc;
   init_options.argv = wasiargv;
-- 
2.43.0


From d9d69aecd271ec9d4acedec1ff782fea471c1069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 54/68] fix: libffi: a callback could be invoked once only, and
 its closure was written past its memory

---
 pwart_syslib/libffi.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pwart_syslib/libffi.c b/pwart_syslib/libffi.c
index a80c35c..b5a6eac 100644
--- a/pwart_syslib/libffi.c
+++ b/pwart_syslib/libffi.c
@@ -111,11 +111,17 @@ static void wasm__ffi_call(void *fp){
 }
 
 
+// A closure together with what its callback needs. It lives, and is freed, with the closure.
+struct libffi_closure{
+    ffi_closure closure;
+    void *userdata2[2];
+};
+
 static void wasm__ffi_closure_alloc(void *fp){
     void *sp=fp;
     void *code=NULL;
     sp=fp;
-    void *closure=ffi_closure_alloc(sizeof(FFI_CLOSURES),&code);
+    void *closure=ffi_closure_alloc(sizeof(struct libffi_closure),&code);
     pwart_rstack_put_ref(&sp,closure);
     pwart_rstack_put_ref(&sp,code);
 }
@@ -128,7 +134,6 @@ static void wasm__ffi_closure_free(void *fp){
 static void wasmcb__ffi_closurecb(ffi_cif* cif,void *ret, void* args[],void **userdata2){
     void *fn2=userdata2[0];
     void *user_data=userdata2[1];
-    wa_free(userdata2);
     void *stackbase=pwart_allocate_stack(4096);
     void *sp=stackbase;
     pwart_rstack_put_ref(&sp,cif);
@@ -146,7 +151,7 @@ static void wasm__ffi_prep_closure_loc(void *fp){
     _wargref(user_data)
     _wargref(codeloc);
     sp=fp;
-    void **userdata2=wa_malloc(sizeof(void *)*2);
+    void **userdata2=((struct libffi_closure *)closure)->userdata2;
     userdata2[0]=fn;
     userdata2[1]=user_data;
     ffi_status stat=ffi_prep_closure_loc(closure,cif,(void *)&wasmcb__ffi_closurecb,userdata2,codeloc);
@@ -156,7 +161,6 @@ static void wasm__ffi_prep_closure_loc(void *fp){
 static void wasmcb__c2wasm_adapter(ffi_cif* cif,void *ret, void* args[],void **userdata2){
     void *wasmfn=userdata2[0];
     void *user_data=userdata2[1];
-    wa_free(userdata2);
     void *stackbase=pwart_allocate_stack(4096);
     void *sp=stackbase;
     for(int i=0;i<cif->nargs;i++){
@@ -179,11 +183,11 @@ static void wasm__ffix_new_c_callback(void *fp){
     _wargref(user_data)
     sp=fp;
     void *code=NULL;
-    void **userdata2=wa_malloc(sizeof(void *)*2);
+    struct libffi_closure *closure=ffi_closure_alloc(sizeof(struct libffi_closure),&code);
+    void **userdata2=closure->userdata2;
     userdata2[0]=fn;
     userdata2[1]=user_data;
-    void *closure=ffi_closure_alloc(sizeof(FFI_CLOSURES),&code);
-    ffi_status stat=ffi_prep_closure_loc(closure,cif,(void *)&wasmcb__c2wasm_adapter,userdata2,code);
+    ffi_status stat=ffi_prep_closure_loc(&closure->closure,cif,(void *)&wasmcb__c2wasm_adapter,userdata2,code);
     pwart_rstack_put_ref(&sp,closure); 
     pwart_rstack_put_ref(&sp,code); 
     pwart_rstack_put_i32(&sp,stat);
-- 
2.43.0


From 07051fa939ea1947922ab197c0d0d08ddc4f11a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 55/68] fix: libffi: failing allocations were used

---
 pwart_syslib/libffi.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pwart_syslib/libffi.c b/pwart_syslib/libffi.c
index b5a6eac..85e2514 100644
--- a/pwart_syslib/libffi.c
+++ b/pwart_syslib/libffi.c
@@ -67,6 +67,11 @@ static void wasm__ffix_new_cif(void *fp){
         return;
     }
     ffi_cif *cif=wa_malloc(sizeof(ffi_cif)+sizeof(ffi_type *)*alen);
+    if(cif==NULL){
+        pwart_rstack_put_ref(&sp,NULL);
+        pwart_rstack_put_i32(&sp,1);
+        return;
+    }
     ffi_type **typearr=(ffi_type **)((char *)cif+sizeof(ffi_cif));
     for(i=0;i<alen;i++){
         typearr[i]=ffix_CharToType(typeid[i]);
@@ -184,6 +189,12 @@ static void wasm__ffix_new_c_callback(void *fp){
     sp=fp;
     void *code=NULL;
     struct libffi_closure *closure=ffi_closure_alloc(sizeof(struct libffi_closure),&code);
+    if(closure==NULL){
+        pwart_rstack_put_ref(&sp,NULL);
+        pwart_rstack_put_ref(&sp,NULL);
+        pwart_rstack_put_i32(&sp,FFI_BAD_TYPEDEF);
+        return;
+    }
     void **userdata2=closure->userdata2;
     userdata2[0]=fn;
     userdata2[1]=user_data;
@@ -206,13 +217,12 @@ static void wasm__ffix_call(void *fp){
     _wargref(fn)
     void *rvalue=pwart_rstack_get_ref(&sp);
     int64_t *i64arg=pwart_rstack_get_ref(&sp);
-    void **avalue=wa_malloc(sizeof(void *)*cif->nargs);
+    void **avalue=sp;
     int i1;
     for(i1=0;i1<cif->nargs;i1++){
         avalue[i1]=i64arg+i1;
     }
     ffi_call(cif,fn,rvalue,avalue);
-    wa_free(avalue);
 }
 
 static void wasm__ffi_default_abi(void *fp){
-- 
2.43.0


From ac746a5d0810f41c7298f25eb57585055aa0f16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:31 +0000
Subject: [PATCH 56/68] fix: syslib: unloading freed modules still in the
 namespace, crashed on absent ones; loading twice leaked

---
 pwart_syslib/pwart_syslib.c | 64 +++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/pwart_syslib/pwart_syslib.c b/pwart_syslib/pwart_syslib.c
index 5eda5eb..88e179d 100644
--- a/pwart_syslib/pwart_syslib.c
+++ b/pwart_syslib/pwart_syslib.c
@@ -20,29 +20,61 @@ extern char **pwart_syslib_get_enabled_list(){
     return enabled_module;
 }
 
+// A module attached by pwart_syslib_load is deleted when it leaves its namespace, whatever the reason is.
+static void syslib_OnLibuvDetached(struct pwart_host_module *mod){
+    pwart_libuv_module_delete(mod);
+}
+static void syslib_OnLibffiDetached(struct pwart_host_module *mod){
+    pwart_libffi_module_delete(mod);
+}
+static void syslib_OnWasiDetached(struct pwart_host_module *mod){
+    pwart_wasi_module_delete(mod);
+}
+
+static struct{
+    char *name;
+    struct pwart_host_module *(*new_module)();
+    void (*on_detached)(struct pwart_host_module *mod);
+} syslib_modules[]={
+    {"libuv",&pwart_libuv_module_new,&syslib_OnLibuvDetached},
+    {"libffi",&pwart_libffi_module_new,&syslib_OnLibffiDetached},
+    {"wasi_snapshot_preview1",&pwart_wasi_module_new,&syslib_OnWasiDetached}
+};
+
+static int syslib_IsAttached(pwart_namespace ns,int i){
+    struct pwart_named_module *mod=pwart_namespace_find_module(ns,syslib_modules[i].name);
+    return mod!=NULL && mod->type==PWART_MODULE_TYPE_HOST_MODULE && mod->val.host->on_detached==syslib_modules[i].on_detached;
+}
+
 extern char *pwart_syslib_load(pwart_namespace ns){
     struct pwart_named_module mod;
-    mod.name="libuv";
-    mod.type=PWART_MODULE_TYPE_HOST_MODULE;
-    mod.val.host=pwart_libuv_module_new();
-    char *err=pwart_namespace_define_module(ns,&mod);
-    if(err!=NULL)return err;
-    mod.name="libffi";
-    mod.val.host=pwart_libffi_module_new();
-    err=pwart_namespace_define_module(ns,&mod);
-    if(err!=NULL)return err;
-    if(uvwcinited){
-        mod.name="wasi_snapshot_preview1";
-        mod.val.host=pwart_wasi_module_new();
+    char *err;
+    int i;
+    //wasi is the last one, and only available after pwart_wasi_module_init.
+    int count=uvwcinited?3:2;
+    for(i=0;i<count;i++){
+        if(syslib_IsAttached(ns,i))continue;
+        mod.name=syslib_modules[i].name;
+        mod.type=PWART_MODULE_TYPE_HOST_MODULE;
+        mod.val.host=syslib_modules[i].new_module();
+        mod.val.host->on_detached=syslib_modules[i].on_detached;
         err=pwart_namespace_define_module(ns,&mod);
-        if(err!=NULL)return err;
+        if(err!=NULL){
+            pwart_namespace_delete_host_module(mod.val.host);
+            return err;
+        }
     }
     return NULL;
 }
 
 extern char *pwart_syslib_unload(pwart_namespace ns){
-    pwart_libuv_module_delete(pwart_namespace_find_module(ns,"libuv")->val.host);
-    pwart_libffi_module_delete(pwart_namespace_find_module(ns,"libffi")->val.host);
-    pwart_wasi_module_delete(pwart_namespace_find_module(ns,"wasi_snapshot_preview1")->val.host);
+    char *err;
+    int i;
+    for(i=0;i<3;i++){
+        if(syslib_IsAttached(ns,i)){
+            err=pwart_namespace_remove_module(ns,syslib_modules[i].name);
+            if(err!=NULL)return err;
+        }
+    }
     return NULL;
 }
\ No newline at end of file
-- 
2.43.0


From 13f7d65cee1f02183d90590e6f38e2b1d8b5650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:45 +0000
Subject: [PATCH 57/68] fix: constant expressions of more than sixteen operands
 overran the evaluator's stack

---
 pwart/extfunc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 86fdcf1..6b6d130 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -490,10 +490,13 @@ static Type func_type_memoryfill={.params=types_ref_i32_i32_ref_i32,.results=typ
 static char *waexpr_run_const(ModuleCompiler *m, void *result) {
   int opcode=0;
   //const stack
-  uint64_t stack[16];
+  uint64_t stack[256];
   void *sp=&stack;
   int eof=0;
   while(m->pc<=m->byte_count && !eof){
+    if(sp>(void *)(stack+255)){
+      return "const expr too deep.";
+    }
     opcode=m->bytes[m->pc];
     m->pc++;
     switch (opcode) {
-- 
2.43.0


From ed099691cfdf967728d7b5942a3cb11219646eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:20 +0000
Subject: [PATCH 58/68] fix: a dylink section that is not in the expected
 format was read past the module's end

---
 pwart/modparser.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index facd050..b36f547 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -139,10 +139,8 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             wa_debug("  Section name '%s'\n", name);
             if (strncmp(name, "dylink", 7) == 0) {
                 // https://github.com/WebAssembly/tool-conventions/blob/master/DynamicLinking.md
-                // TODO: make use of these
-                uint32_t memorysize = read_LEB(bytes, &pos, 32);
-                uint32_t tablesize = read_LEB(bytes, &pos, 32);
-                (void)memorysize; (void)tablesize;
+                // TODO: make use of memorysize and tablesize here.
+                // The content of a custom section can be anything, and must not fail the load.
             } else {
                 wa_debug("Ignoring unknown custom section '%s'\n", name);
             }
-- 
2.43.0


From e8f7ec398fda53d43dcabfe9c58444ab962f3b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 59/68] fix: code that can never run is skipped instead of
 compiled with operands that are not on the stack

---
 pwart/wagen.c | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/pwart/wagen.c b/pwart/wagen.c
index 6ad2c97..a94d5cd 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -21,7 +21,7 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     break;
   // varuint32, varint32
   case 0x0c: case 0x0d: // br, br_if
-  case 0x10:          // call
+  case 0x10: case 0x12: // call, return_call
     read_LEB(bytes, pos, 32);
     break;
   case 0x20: //local.get
@@ -35,6 +35,8 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     break;
   case 0x23: //global.get
   case 0x24: //global.set
+  case 0x25: //table.get
+  case 0x26: //table.set
   case 0xd0: //ref.null
   case 0xd2: //ref.func
     read_LEB(bytes, pos, 32);
@@ -43,9 +45,9 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     read_LEB(bytes, pos, 32);
     break;
   // varuint32 + varuint1
-  case 0x11: // call_indirect
+  case 0x11: case 0x13: // call_indirect, return_call_indirect
+    read_LEB(bytes, pos, 32);
     read_LEB(bytes, pos, 32);
-    read_LEB(bytes, pos, 1);
     break;
   case 0x1c: // select t
     read_LEB(bytes, pos, 32);
@@ -107,6 +109,26 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
 
 
 
+// Skip to the "end" or "else" of the current block. The operands of instructions there need not be on the stack.
+static void pwart_SkipUnreachableCode(ModuleCompiler *m) {
+  int depth = 0;
+  while (m->pc < m->byte_count) {
+    uint8_t opcode = m->bytes[m->pc];
+    if (depth == 0 && (opcode == 0x05 || opcode == 0x0b)) {
+      break;
+    }
+    if (opcode >= 0x02 && opcode <= 0x04) {
+      depth++;
+    } else if (opcode == 0x0b) {
+      depth--;
+    }
+    wasm_SkipImmediates(m->bytes, &m->pc);
+#if DEBUG_BUILD
+    m->insnCnt--;
+#endif
+  }
+}
+
 // Whether the length of the instruction at "pos" is known.
 static int wasm_IsKnownInstruction(uint8_t *bytes, uint32_t pos) {
   uint32_t opcode = bytes[pos];
@@ -385,6 +407,9 @@ static char *pwart_GenCode(ModuleCompiler *m) {
       ReturnIfErr(opgen_GenMiscOp(m, opcode));
     }
     ReturnIfErr(pwart_CheckCompilerError(m));
+    if (opcode == 0x00 || opcode == 0x0c || opcode == 0x0e || opcode == 0x0f || opcode == 0x12 || opcode == 0x13) {
+      pwart_SkipUnreachableCode(m);
+    }
   }
 
   #if DEBUG_BUILD
-- 
2.43.0


From 80709f1ae689e476ad3d9a9df7ddc61f7475659b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:29 +0000
Subject: [PATCH 60/68] fix: a local kept in memory was overwritten while a
 reinterpreted copy of it waited on the operand stack

---
 pwart/opgen_mem.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index a8fd9dd..95b1e30 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -20,7 +20,7 @@ static void opgen_GenLocalSet(ModuleCompiler *m, uint32_t idx) {
   // check if local variable still on stack.
   for (int i = 0; i < m->sp; i++) {
     // XXX: If we use SLJIT_MEM(SLJIT_Sx), here need change.
-    if (stack[i].jit_type==SVT_GENERAL && stackvalue_IsFloat(&stack[i]) == stackvalue_IsFloat(sv) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
+    if (stack[i].jit_type==SVT_GENERAL && (stackvalue_IsFloat(&stack[i]) == stackvalue_IsFloat(sv) || (sv->val.op & SLJIT_MEM)) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
       pwart_EmitSaveStack(m, &stack[i]);
     }
   }
@@ -36,7 +36,7 @@ static void opgen_GenLocalTee(ModuleCompiler *m, uint32_t idx) {
   // check if local variable still on stack.
   for (int i = 0; i < m->sp; i++) {
     // XXX: If we use SLJIT_MEM(SLJIT_Sx), here need change.
-    if (stack[i].jit_type==SVT_GENERAL && stackvalue_IsFloat(&stack[i]) == stackvalue_IsFloat(sv) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
+    if (stack[i].jit_type==SVT_GENERAL && (stackvalue_IsFloat(&stack[i]) == stackvalue_IsFloat(sv) || (sv->val.op & SLJIT_MEM)) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
       pwart_EmitSaveStack(m, &stack[i]);
     }
   }
-- 
2.43.0


From 9029f8ec2dfebb5b82c644c64ac1f54eadaa83c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:29 +0000
Subject: [PATCH 61/68] fix: float operands in the eighth and later registers
 were not saved across calls

---
 pwart/opgen_utils.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 9eecdbc..77e1d42 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -243,11 +243,13 @@ static char* pwart_EmitSaveStackAll(ModuleCompiler *m) {
 }
 
 static char* pwart_EmitSaveScratchRegisterAll(ModuleCompiler *m,int upstack) {
-  int i,usereg=0;
+  int i,usereg=0,firstSaved;
   for (i = 0; i <= m->sp-upstack; i++) {
     if(m->stack[i].jit_type==SVT_GENERAL){
       usereg=SLJIT_GET_REG_PART(m->stack[i].val.op);
-      if(usereg!=0 && usereg< SLJIT_FIRST_SAVED_REG){
+      //float registers are numbered on their own.
+      firstSaved=stackvalue_IsFloat(&m->stack[i]) && m->stack[i].val.op<SLJIT_MEM ? SLJIT_FIRST_SAVED_FLOAT_REG : SLJIT_FIRST_SAVED_REG;
+      if(usereg!=0 && usereg<firstSaved){
         pwart_EmitSaveStack(m,m->stack+i);
       }
     }else if(m->stack[i].jit_type==SVT_TWO_REG){
@@ -596,7 +598,7 @@ static sljit_s32 pwart_GetFreeReg(ModuleCompiler *m, sljit_s32 regtype, int upst
     }
   } else {
     for (fr = SLJIT_FR0;
-         fr <= SLJIT_FR0 + SLJIT_NUMBER_OF_SCRATCH_FLOAT_REGISTERS; fr++) {
+         fr < SLJIT_FR0 + SLJIT_NUMBER_OF_SCRATCH_FLOAT_REGISTERS; fr++) {
       if (m->float_registers_status[fr - SLJIT_FR0] & RS_RESERVED) {
         continue;
       }
-- 
2.43.0


From 5e879f4c6749121d84e7344675d1e0be7f1ae44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:00 +0000
Subject: [PATCH 62/68] fix: load all 32 bytes of an unaligned memory operand
 in 256 bit vector operations (x86)

---
 sljit/sljit_src/sljitNativeX86_common.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 6a09679..3d3a436 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -4910,7 +4910,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 
 	if ((src2 & SLJIT_MEM) && SLJIT_SIMD_GET_ELEM2_SIZE(type) < reg_size) {
 		mov_op = ((type & SLJIT_SIMD_FLOAT) ? (MOVUPS_x_xm | (elem_size == 3 ? EX86_PREF_66 : 0)) : (MOVDQU_x_xm | EX86_PREF_F3)) | EX86_SSE2;
-		if (use_vex)
+		if (reg_size == 5)
+			mov_op |= VEX_256;
+		if (reg_size == 5 || use_vex)
 			FAIL_IF(emit_vex_instruction(compiler, mov_op, TMP_FREG, 0, src2, src2w));
 		else
 			FAIL_IF(emit_groupf(compiler, mov_op, TMP_FREG, src2, src2w));
-- 
2.43.0


From f5aa850ed41a0471541c7d85c52a80b84ffb3fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:00 +0000
Subject: [PATCH 63/68] fix: keep the upper half of a 64 bit immediate moved to
 a vector lane (x86)

---
 sljit/sljit_src/sljitNativeX86_common.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 3d3a436..2845bb1 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -4317,7 +4317,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_mov(struct sljit_compile
 	}
 
 	if (srcdst == SLJIT_IMM) {
-		EMIT_MOV(compiler, TMP_REG1, 0, SLJIT_IMM, srcdstw);
+#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
+		if (elem_size == 3)
+			FAIL_IF(emit_load_imm64(compiler, TMP_REG1, srcdstw));
+		else
+#endif /* SLJIT_CONFIG_X86_64 */
+			EMIT_MOV(compiler, TMP_REG1, 0, SLJIT_IMM, srcdstw);
 		srcdst = TMP_REG1;
 		srcdstw = 0;
 	}
-- 
2.43.0


From 23e129fe6d915ec43dd083e88cdd155de7ca46c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:02 +0000
Subject: [PATCH 64/68] fix: wasiexec reports a program file it cannot open,
 measure or read completely

---
 pwart_syslib/wasiexec.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pwart_syslib/wasiexec.c b/pwart_syslib/wasiexec.c
index 07fd6fb..6a23fad 100644
--- a/pwart_syslib/wasiexec.c
+++ b/pwart_syslib/wasiexec.c
@@ -18,17 +18,29 @@ int main(int argc,char **argv){
         int returncode;
 
         f = fopen(modpath, "rb");
+        if(f==NULL){
+            printf("can not open %s\n",modpath);
+            return 1;
+        }
 
-        fseek(f,0,SEEK_END);
-        filesize=ftell(f);
+        if(fseek(f,0,SEEK_END)!=0 || (filesize=ftell(f))<0){
+            printf("can not get the size of %s\n",modpath);
+            return 1;
+        }
 
         if(filesize>1024*1024*1024){
             printf(".wasm file too large(>1GB)\n");
             return 1;
         }
-        fseek(f,0,SEEK_SET);
-
         uint8_t *data = malloc(filesize);
+        if(data==NULL){
+            printf("out of memory\n");
+            return 1;
+        }
+        if(fseek(f,0,SEEK_SET)!=0){
+            printf("can not read %s\n",modpath);
+            return 1;
+        }
 
         pwart_namespace *ns=pwart_namespace_new();
         
@@ -39,6 +51,10 @@ int main(int argc,char **argv){
         pwart_syslib_load(ns);
         len = fread(data, 1, filesize, f);
         fclose(f);
+        if(len!=filesize){
+            printf("can not read %s\n",modpath);
+            return 1;
+        }
         pwart_module_state stat=pwart_namespace_define_wasm_module(ns,"__main__",data,len,&err);
         free(data);
         if(err!=NULL){
-- 
2.43.0


From 4320c094499b2a1baae092d7e24d1dc3013d1c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:02 +0000
Subject: [PATCH 65/68] fix: report a refused runtime stack instead of writing
 to it

---
 pwart/pwart.c           | 1 +
 pwart_syslib/wasiexec.c | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pwart/pwart.c b/pwart/pwart.c
index b78d532..8932c6a 100644
--- a/pwart/pwart.c
+++ b/pwart/pwart.c
@@ -138,6 +138,7 @@ extern void *pwart_module_state_get_user_data(pwart_module_state c){
 
 extern void *pwart_allocate_stack(int size){
     uint8_t *mem=wa_malloc(size+16);
+    if(mem==NULL)return NULL;
     uint8_t *stack_buffer=(uint8_t *)((((size_t)mem)+16) & (~(size_t)(0xf)));
     stack_buffer[-1]=stack_buffer-mem;
     return stack_buffer;
diff --git a/pwart_syslib/wasiexec.c b/pwart_syslib/wasiexec.c
index 6a23fad..13e4922 100644
--- a/pwart_syslib/wasiexec.c
+++ b/pwart_syslib/wasiexec.c
@@ -33,7 +33,7 @@ int main(int argc,char **argv){
             return 1;
         }
         uint8_t *data = malloc(filesize);
-        if(data==NULL){
+        if(data==NULL || stackbase==NULL){
             printf("out of memory\n");
             return 1;
         }
-- 
2.43.0


From eef95106729b4d367c30aab4102aa6480e22ad87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:02 +0000
Subject: [PATCH 66/68] fix: wasiexec runs programs which need no WASI when
 WASI is not available

---
 pwart_syslib/wasiexec.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pwart_syslib/wasiexec.c b/pwart_syslib/wasiexec.c
index 13e4922..4cdd336 100644
--- a/pwart_syslib/wasiexec.c
+++ b/pwart_syslib/wasiexec.c
@@ -47,6 +47,7 @@ int main(int argc,char **argv){
         err=pwart_wasi_module_init();
         if(err!=NULL){
             printf("warning:%s uvwasi will not load",err);
+            err=NULL;
         }
         pwart_syslib_load(ns);
         len = fread(data, 1, filesize, f);
-- 
2.43.0


From 62337574ea1d24f9780d2bd6cb40f2ce83ea07c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:07 +0000
Subject: [PATCH 67/68] fix: a thread for which memory is refused is reported
 as not started

---
 pwart_syslib/libuv.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pwart_syslib/libuv.c b/pwart_syslib/libuv.c
index ed71abf..65a056e 100644
--- a/pwart_syslib/libuv.c
+++ b/pwart_syslib/libuv.c
@@ -49,7 +49,6 @@ struct libuv_wasmthread{
 };
 static void wasm__uv_wasmthreadentry(void *awt){
     struct libuv_wasmthread *wt=awt;
-    wt->stack=pwart_allocate_stack(64*1024);
     void *sp=wt->stack;
     pwart_rstack_put_i64(&sp,wt->arg);
     pwart_call_wasm_function(wt->wasmentry,wt->stack);
@@ -61,11 +60,19 @@ static void wasm__uv_thread_create(void *fp){
     _wargref(entry)
     _wargi64(arg)
     struct libuv_wasmthread *info=wa_malloc(sizeof(struct libuv_wasmthread));
-    info->wasmentry=entry;
-    info->arg=arg;
+    if(info!=NULL){
+        info->wasmentry=entry;
+        info->arg=arg;
+        info->stack=pwart_allocate_stack(64*1024);
+        if(info->stack==NULL){
+            wa_free(info);
+            info=NULL;
+        }
+    }
     // "info" is owned (and freed) by the new thread once it has been started.
     uv_thread_t uvt;
-    if(uv_thread_create(&uvt,wasm__uv_wasmthreadentry,info)!=0){
+    if(info!=NULL && uv_thread_create(&uvt,wasm__uv_wasmthreadentry,info)!=0){
+        pwart_free_stack(info->stack);
         wa_free(info);
         info=NULL;
     }
-- 
2.43.0


From b23bcddefba5f61a9f8aa441f4eceeaff1933a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:18 +0000
Subject: [PATCH 68/68] fix: refused memory for a library handle, mutex or
 condition is reported, not used

---
 pwart_syslib/libuv.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pwart_syslib/libuv.c b/pwart_syslib/libuv.c
index 65a056e..f494d7f 100644
--- a/pwart_syslib/libuv.c
+++ b/pwart_syslib/libuv.c
@@ -18,7 +18,7 @@ static void wasm__uv_dlopen(void *fp){
     _wargref(filename)
     sp=fp;
     void *lib=wa_malloc(sizeof(uv_lib_t));
-    int result=uv_dlopen(filename,lib);
+    int result=lib!=NULL?uv_dlopen(filename,lib):UV_ENOMEM;
     pwart_rstack_put_ref(&sp,lib);
     pwart_rstack_put_i32(&sp,result);
 }
@@ -38,8 +38,10 @@ static void wasm__uv_dlclose(void *fp){
     void *sp=fp;
     _wargref(lib)
     sp=fp;
-    uv_dlclose(lib);
-    wa_free(lib);
+    if(lib!=NULL){
+        uv_dlclose(lib);
+        wa_free(lib);
+    }
 }
 
 struct libuv_wasmthread{
@@ -84,7 +86,10 @@ static void wasm__uv_thread_create(void *fp){
 static void wasm__uv_mutex_init(void *fp){
     void *sp=fp;
     void *mut=wa_malloc(sizeof(uv_mutex_t));
-    uv_mutex_init(mut);
+    if(mut!=NULL && uv_mutex_init(mut)!=0){
+        wa_free(mut);
+        mut=NULL;
+    }
     pwart_rstack_put_ref(&sp,mut);
 }
 
@@ -119,7 +124,10 @@ static void wasm__uv_mutex_unlock(void *fp){
 static void wasm__uv_cond_init(void *fp){
     void *sp=fp;
     void *cond=wa_malloc(sizeof(uv_cond_t));
-    uv_cond_init(cond);
+    if(cond!=NULL && uv_cond_init(cond)!=0){
+        wa_free(cond);
+        cond=NULL;
+    }
     pwart_rstack_put_ref(&sp,cond);
 }
 
-- 
2.43.0

