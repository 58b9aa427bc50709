----------------------------- MODULE OutliersMC -----------------------------
EXTENDS Outliers
=============================================================================
