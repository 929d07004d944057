---- MODULE MCJsApi ----
EXTENDS JsApi
====
