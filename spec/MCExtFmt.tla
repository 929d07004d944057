---- MODULE MCExtFmt ----
EXTENDS ExtFmt
All(S) == S
OptSet == {[lang |-> "", o |-> [default_language |-> ""]], [lang |-> "fa", o |-> [default_language |-> "fa"]], [lang |-> "txt", o |-> [default_language |-> "txt"]]}
AllContexts == {"top", "quote", "quote2", "alert", "item", "item2", "num", "itemq", "qitem", "dd", "dd2", "kept", "note"}
AllLangs == {"none", "fa", "fb", "FA", "fab", "meta", "off", "offmeta", "notoff", "only", "comma", "other"}
====
