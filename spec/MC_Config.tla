----------------------------- MODULE MC_Config -----------------------------
EXTENDS Gen_Config
=============================================================================
