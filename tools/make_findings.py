#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS.json."""
import json
F="""bca5044 C16 the currents of the previous step were lost when the dispersive memory was updated
765f47a C15 memory of off-diagonal (transfer impedance) elements mixed rows
b43ac02 C15 direction 'both' coupled one way only
349b685 C15 several poles of a transfer impedance raised or were dropped
e629771 C17 resistance of a region went to wrong cells, conductor and total
b37d578 C17 conductance of a region went to wrong nodes, conductor and total
421d5f9 C09 terminal terms kept the time step and end conductances of construction
7f03906 C07 polylines with different divisions per segment were discretised wrongly
24af545 C09 bundles, networks and probes of one run used different time steps
f689897 C11 add_networks did not resolve conductor rows
5d6eb2a C14 rows of same-level lines and of networks added again
9433751 C09 dispersive elements kept the time step of construction
02c679a C16 a lumped element next to the end of a line was out of range
bf28bf1 C08 probes rejected points of the line and accepted points beyond its end
8dd7c1d C18 lumped elements and distributed sources only on lines of one direction
30d4b03 C11 sign of the capacitor equation of LCpRs terminations
cb70a50 C10 a clean copy kept the dispersive memory of its original
2b2c8cb C13 networks ignored shunt conductance and incident field of their lines
6605359 C12 branches sharing a network node overwrote each other and mixed their sources
1418587 C23 waveforms doubled at their breakpoints
094d52d C19 incident field of the last node was taken elsewhere
deefa2c C19 longitudinal incident field was not sampled at the middle of its cell
466bd32 C19 transverse incident field along oblique displacements
6ee9c02 C19 a localized incident field excited the wrong cells and nodes
bc647a1 C18 a distributed source did not cover exactly its region
b7a74f3 C20 a document with several lumped elements
230b088 C21 the order of cables in a level depended on string hashing
cbdfd0c C20 a distributed source drove another cable than the one named
bf3e311 C20 a source without a known waveform was not null
54422db C21 termination of a group of conductors depended on the order of the document
d078630 C20 networks of one level at the same position overwrote each other
ca830fa C20 shields without transfer impedance raised
ae734ee C24 port probes used attributes a line does not have; shunt conductance ignored the incident transverse field
84fc0fe C15 a connector's transfer impedance kept the poles of the cell it replaces
bf0db29 C06 incident fields replaced other distributed sources instead of adding to them
347bfe6 C23 symbolic ramps were negative before zero and discontinuous away from the origin
f1d59ea C22 a network of an unknown bundle was refused but stayed in the system, which could not run any more
386bedf C09 the current of a terminating capacitor was rescaled when the time step changed between runs
63bb5bf C26 a bundle kept the caller's dictionary of levels, which another use of it then changed
bf5bbbd C26 a NetworkD kept the caller's dictionary of networks by level
c82e622 C08 the first record of a probe that a step made by hand feeds was overwritten by the state that followed
e95f226 C08 on lines of very small or very large cells, or at points known up to rounding, positions off the line were accepted and positions on it rejected
ae28eb7 C07 positions given as an int or a numpy number were taken for something else than a distance along z"""
d={"findings":[{"property":"C24","scenario":"c24_extract.","clause":"extraction","where":"'MTL' object has no attribute 'x'",
 "what":"networkExtraction.extract_2p_network reads line1.x, which lines do not have (AttributeError in getSolvedProbesFromLine)"}],
 "fixed":["fixed: property=%s %s %s"%(l.split(" ",2)[1],l.split(" ",2)[0],l.split(" ",2)[2]) for l in F.split("\n")]}
json.dump(d,open('/verif/KNOWN_FINDINGS.json','w'),indent=1)
print(len(d["fixed"]))
