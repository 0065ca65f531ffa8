#!/usr/bin/env python3
"""Writes known-findings.txt: the repaired defects (with their commits)."""
import subprocess,os
M={'74f9c8c':'C32','9e23323':'C36','5b0eb44':'C19','be9d3df':'C21','80322c9':'C06','de7a2c1':'C07','b162045':'C09','4817ab2':'C11','814d983':'C10','3898208':'C03','c54c4e5':'C15','986b8f6':'C15','c78d63c':'C14','75b8092':'C14','969f882':'C01','a5c2e69':'C05','e8b3f8c':'C04','4d7c614':'C13','172d9ea':'C30','ab7e92d':'C30','f4f91a9':'C27','08fcde0':'C27','c472d98':'C28','2e79dc3':'C28','7a2fe14':'C31','31b013c':'C31', '8da12e2': 'C31','39a049a':'C32','a31cb49':'C33','99f9296':'C33','b5adbec':'C33','5ee31f6':'C33','fc0acbe':'C33','613ae9f':'C34','9946797':'C19','40a9393':'C19','5bc0d4f':'C20','c5e1b16':'C20','b42c609':'C21','9e365be':'C21','ed357ea':'C21','8e71e18':'C19','97cf16a':'C23','9687250':'C23','922e058':'C24','8b9617f':'C23','653176b':'C24','a3d9411':'C20','d455f0b':'C25','b5b1f58':'C25','8dd8653':'C26','2451d82':'C26','dbb2203':'C35','1c5e151':'C35','fb43e57':'C35','c280c5a':'C22','bf4d675':'C22','0e7d8fd':'C26','6fee43b':'C29'}
out=['# Defects of philhofer/seth found by these checks or while writing them.',
'# fixed: repaired in /repo by the commit named; suppresses nothing.',
'# known: property=ID key=RULE/CONSTRUCT text  (recorded, not repaired)','']
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','f2e289e..HEAD'],text=True).splitlines()
for l in log:
    h,s=l.split(' ',1)
    assert s.startswith('fix: '),l
    out.append('fixed: property=%s %s %s'%(M[h[:7]],h,s[5:]))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'known-findings.txt'),'w').write('\n'.join(out)+'\n')
