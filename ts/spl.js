'use strict';
// The part of @solana/spl-token the client uses.

const { PublicKey, TransactionInstruction, SystemProgram } = require('./web3');
const { guard } = require('./missing');

const TOKEN_PROGRAM_ID = new PublicKey('TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA');
const ASSOCIATED_TOKEN_PROGRAM_ID = new PublicKey('ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL');
const NATIVE_MINT = new PublicKey('So11111111111111111111111111111111111111112');

function getAssociatedTokenAddressSync(mint, owner, allowOwnerOffCurve = false, programId = TOKEN_PROGRAM_ID, ata = ASSOCIATED_TOKEN_PROGRAM_ID) {
  if (!allowOwnerOffCurve && !PublicKey.isOnCurve(owner.toBuffer())) throw new Error('TokenOwnerOffCurveError');
  return PublicKey.findProgramAddressSync([owner.toBuffer(), programId.toBuffer(), mint.toBuffer()], ata)[0];
}

function createAta(payer, account, owner, mint, data, programId = TOKEN_PROGRAM_ID, ata = ASSOCIATED_TOKEN_PROGRAM_ID) {
  return new TransactionInstruction({
    keys: [
      { pubkey: payer, isSigner: true, isWritable: true },
      { pubkey: account, isSigner: false, isWritable: true },
      { pubkey: owner, isSigner: false, isWritable: false },
      { pubkey: mint, isSigner: false, isWritable: false },
      { pubkey: SystemProgram.programId, isSigner: false, isWritable: false },
      { pubkey: programId, isSigner: false, isWritable: false },
    ],
    programId: ata,
    data,
  });
}

module.exports = guard(
  {
    TOKEN_PROGRAM_ID,
    ASSOCIATED_TOKEN_PROGRAM_ID,
    NATIVE_MINT,
    getAssociatedTokenAddressSync,
    async getAssociatedTokenAddress(...a) {
      return getAssociatedTokenAddressSync(...a);
    },
    createAssociatedTokenAccountInstruction: (p, a, o, m, t, x) => createAta(p, a, o, m, Buffer.alloc(0), t, x),
    createAssociatedTokenAccountIdempotentInstruction: (p, a, o, m, t, x) => createAta(p, a, o, m, Buffer.from([1]), t, x),
    createCloseAccountInstruction(account, destination, authority) {
      return new TransactionInstruction({
        keys: [
          { pubkey: account, isSigner: false, isWritable: true },
          { pubkey: destination, isSigner: false, isWritable: true },
          { pubkey: authority, isSigner: true, isWritable: false },
        ],
        programId: TOKEN_PROGRAM_ID,
        data: Buffer.from([9]),
      });
    },
    createInitializeAccount3Instruction(account, mint, owner) {
      return new TransactionInstruction({
        keys: [
          { pubkey: account, isSigner: false, isWritable: true },
          { pubkey: mint, isSigner: false, isWritable: false },
        ],
        programId: TOKEN_PROGRAM_ID,
        data: Buffer.concat([Buffer.from([18]), owner.toBuffer()]),
      });
    },
  },
  'spl-token',
);
