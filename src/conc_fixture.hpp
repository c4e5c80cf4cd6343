#pragma once
struct Racy { mutable double scratch = 0; double query(double x) const; };
struct Clean { double gain = 1; double query(double x) const; };
struct Cached { double query(double x) const; };
