#pragma once
#include "expr.hpp"
#include "solver.hpp"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <memory>
#include <set>

struct Val {
  enum K : uint8_t { NONE, I, SI, F, SF, AGG, PARTS } k = NONE;
  uint16_t w = 0;                     // bits
  uint64_t u = 0;                     // I: value; F: IEEE bits
  N n = nullptr;                      // SI (BV, or BOOL when w == 1), SF (POLY)
  std::shared_ptr<std::vector<Val>> a;   // AGG elements, PARTS pieces (low to high)
};

struct Cell { Val v; uint32_t size; };
struct Obj {
  uint64_t base = 0, size = 0;
  std::vector<uint8_t> data, mask;    // mask: 0 uninit, 1 concrete, 2 first byte of a cell, 3 inside a cell
  std::unordered_map<uint32_t, Cell> cells;
  enum Kind : uint8_t { GLOBAL, STACK, HEAP, FUNC, EXN } kind = HEAP;
  bool alive = true, ro = false, symAlloc = false, tls = false;
  uint8_t akind = 0;                  // 0 malloc, 1 new, 2 new[]
  N symSize = nullptr;
  llvm::Function *fn = nullptr;
  std::string name;
};

struct Opd { int32_t ix; };           // >=0 register, <0 constant -ix-1
struct DInst {
  llvm::Instruction *I; unsigned op; int dst; 
  std::vector<int32_t> ops;
  uint8_t tk = 0; uint16_t tw = 0;    // result scalar type: 0 other,1 int,2 float,3 ptr ; width
  int64_t coff = 0; std::vector<std::pair<int32_t, uint64_t>> gidx;   // GEP
  llvm::Function *callee = nullptr; int builtin = -1;
  int b0 = -1, b1 = -1;               // successor block indices
};
struct DBlock { std::vector<DInst> ins; unsigned nphi = 0; llvm::BasicBlock *bb; std::vector<std::unordered_map<int, int32_t>> phiIn; };
struct FnInfo {
  llvm::Function *F; int nregs = 0; std::vector<DBlock> blocks; std::vector<Val> consts;
  std::unordered_map<const llvm::Value *, int> slot; std::unordered_map<const llvm::BasicBlock *, int> bix;
  bool repo = false;
};
struct Frame {
  FnInfo *fi; std::vector<Val> regs; int bb = 0, prev = -1; size_t ip = 0;
  std::vector<uint64_t> allocas; std::vector<Val> varargs;
  int retDst = -1;                    // caller slot
  const DInst *callInst = nullptr;    // in the caller: call or invoke
  uint64_t setjmpKey = 0;
};
