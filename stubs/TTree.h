#pragma once
class TTree;
