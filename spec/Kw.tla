------------------------------ MODULE Kw ------------------------------
(* The keywords of the language, as sequences of character codes. *)
K_define == << 100, 101, 102, 105, 110, 101 >>  \* define
K_endef == << 101, 110, 100, 101, 102 >>  \* endef
K_export == << 101, 120, 112, 111, 114, 116 >>  \* export
K_override == << 111, 118, 101, 114, 114, 105, 100, 101 >>  \* override
K_private == << 112, 114, 105, 118, 97, 116, 101 >>  \* private
K_undefine == << 117, 110, 100, 101, 102, 105, 110, 101 >>  \* undefine
K_unexport == << 117, 110, 101, 120, 112, 111, 114, 116 >>  \* unexport
K_vpath == << 118, 112, 97, 116, 104 >>  \* vpath
K_load == << 108, 111, 97, 100 >>  \* load
K_dash_load == << 45, 108, 111, 97, 100 >>  \* -load
K_include == << 105, 110, 99, 108, 117, 100, 101 >>  \* include
K_sinclude == << 115, 105, 110, 99, 108, 117, 100, 101 >>  \* sinclude
K_dash_include == << 45, 105, 110, 99, 108, 117, 100, 101 >>  \* -include
K_ifdef == << 105, 102, 100, 101, 102 >>  \* ifdef
K_ifndef == << 105, 102, 110, 100, 101, 102 >>  \* ifndef
K_ifeq == << 105, 102, 101, 113 >>  \* ifeq
K_ifneq == << 105, 102, 110, 101, 113 >>  \* ifneq
K_else == << 101, 108, 115, 101 >>  \* else
K_endif == << 101, 110, 100, 105, 102 >>  \* endif
K_eval == << 101, 118, 97, 108 >>  \* eval
K_strip == << 115, 116, 114, 105, 112 >>  \* strip
K_words == << 119, 111, 114, 100, 115 >>  \* words
K_word == << 119, 111, 114, 100 >>  \* word
========================================================================
